//go:build gvc

// Contracts for fetching signed policies (C08, C10, C22).
package contracts

//@ extern pure func pubkey.Provider(f, env, keyID) v
//@ extern pure zmssvctoken.Verifier.Verify(v, input, signature) err
//@ -- the verifier a fetcher is built with is SignedPolicy.Verify under the daemon's key provider (see policy.New)
//@ extern event func policy.SignedPolicyVerifier(f, sp) err
//@ ensures complete: imp(err == nil, sp != nil && sp.SignedPolicyData != nil && sp.SignedPolicyData.Expires != nil)

//@ spec ztsKey(p, s) = pure("func pubkey.Provider", p, pubkey.EnvZTS, s.KeyId)
//@ spec zmsKey(p, s) = pure("func pubkey.Provider", p, pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)
//@ spec jsonText(v) = app("jsonOf", "Str", v)

//@ func policy.(*SignedPolicy).Verify(s, pkp) err
//@ safety [C22]
//@ ensures [C08,C22] present: imp(err == nil, s != nil && s.SignedPolicyData != nil && s.SignedPolicyData.Expires != nil)
//@ ensures [C08,C09] unexpired: imp(err == nil, exists(k, 0, calls("now"), now(k) < s.SignedPolicyData.Expires.Time))
//@ ensures [C08] zts: imp(err == nil, ztsKey(pkp, s) != nil && pure("zmssvctoken.Verifier.Verify", ztsKey(pkp, s), jsonText(iface(s.SignedPolicyData)), s.Signature) == nil)
//@ ensures [C08] zms: imp(err == nil, zmsKey(pkp, s) != nil && pure("zmssvctoken.Verifier.Verify", zmsKey(pkp, s), jsonText(iface(s.SignedPolicyData.PolicyData)), s.SignedPolicyData.ZmsSignature) == nil)

//@ spec DO() = calls("http.(*Client).Do")
//@ spec resp() = res("http.(*Client).Do", 0, 0)
//@ spec SPV() = calls("func policy.SignedPolicyVerifier")
//@ spec remembered(f) = cast(f.policyCache, "*policy.taggedPolicy")
//@ -- what a policy that passed verification always has
//@ spec complete(sp) = sp != nil && sp.SignedPolicyData != nil && sp.SignedPolicyData.Expires != nil
//@ spec cacheOK(f) = f != nil && f.client != nil && imp(f.policyCache != nil, complete(remembered(f).sp))
//@ spec downloaded(sp) = DO() == 1 && res("http.(*Client).Do", 0, 1) == nil && resp().StatusCode == 200 && calls("json.Decode") == 1 && res("json.Decode", 0, 0) == nil && arg("json.Decode", 0, 0) == resp().Body && arg("json.Decode", 0, 1) == iface(sp)
//@ spec verified(f, sp) = SPV() == 1 && arg("func policy.SignedPolicyVerifier", 0, 0) == f.spVerifier && arg("func policy.SignedPolicyVerifier", 0, 1) == sp && res("func policy.SignedPolicyVerifier", 0, 0) == nil
//@ spec notModified(f, sp) = DO() == 1 && res("http.(*Client).Do", 0, 1) == nil && resp().StatusCode == 304 && old(f.policyCache != nil) && sp == old(remembered(f).sp)

//@ func policy.(*fetcher).Fetch(f, ctx) sp, err
//@ requires cacheOK(f) && f.spVerifier != nil
//@ assumes -(1<<62) < f.expiryMargin && f.expiryMargin < 1<<62
//@ modifies f.policyCache
//@ emits http.(*Client).Do, json.Decode, io.Copy, io.Closer.Close, func policy.SignedPolicyVerifier
//@ logged
//@ safety [C22]
//@ ensures [C08,C10] fresh_or_remembered: imp(err == nil, downloaded(sp) && verified(f, sp) || notModified(f, sp))
//@ ensures [C08,C10] nothing_on_error: imp(err != nil, sp == nil && f.policyCache == old(f.policyCache))
//@ ensures [C08,C10] remembers_verified: imp(f.policyCache != old(f.policyCache), err == nil && f.policyCache != nil && downloaded(sp) && verified(f, sp) && remembered(f).sp == sp)
//@ ensures [C10] remembers_tag: imp(f.policyCache != old(f.policyCache), remembered(f).eTag == header(resp().Header, "Etag") && remembered(f).eTagExpiry == sp.SignedPolicyData.Expires.Time - f.expiryMargin)
//@ ensures [C10] conditional: imp(DO() == 1 && sent(0, "If-None-Match") != "", old(f.policyCache != nil) && sent(0, "If-None-Match") == old(remembered(f).eTag) && exists(k, 0, calls("now"), now(k) < old(remembered(f).eTagExpiry)))
//@ ensures [C10] one_request: DO() <= 1 && imp(DO() == 1, arg("http.(*Client).Do", 0, 0) == f.client)
//@ ensures [*] usable: imp(err == nil, complete(sp))
//@ ensures [*] invariant: cacheOK(f)

//@ spec FE() = calls("policy.(*fetcher).Fetch")
//@ spec feErr(k) = res("policy.(*fetcher).Fetch", k, 1)
//@ spec attempts(f) = ite(f.retryAttempts < 0, 0, f.retryAttempts + 1)

//@ func policy.(*fetcher).FetchWithRetry(f, ctx) sp, err
//@ requires cacheOK(f) && f.spVerifier != nil
//@ modifies f.policyCache
//@ emits http.(*Client).Do, json.Decode, io.Copy, io.Closer.Close, func policy.SignedPolicyVerifier, policy.(*fetcher).Fetch
//@ safety [C22]
//@ ensures [C10] first_success: imp(err == nil, FE() >= 1 && FE() <= attempts(f) && feErr(FE() - 1) == nil && sp == res("policy.(*fetcher).Fetch", FE() - 1, 0))
//@ ensures [C10] failed_before: forall(k, 0, FE(), arg("policy.(*fetcher).Fetch", k, 0) == f && imp(err != nil || k < FE() - 1, feErr(k) != nil))
//@ ensures [C10] all_failed: imp(err != nil, FE() == attempts(f) && ite(f.policyCache == nil, sp == nil, sp == remembered(f).sp))
//@ ensures [C10] unchanged: imp(err != nil, f.policyCache == old(f.policyCache))
//@ ensures [*] usable: imp(err == nil || sp != nil, complete(sp))
//@ ensures [*] invariant: cacheOK(f)

//@ -- fetching through the interface: the contract of (*fetcher).FetchWithRetry
//@ extern event policy.Fetcher.FetchWithRetry(f, ctx) sp, err
//@ ensures usable: imp(err == nil || sp != nil, complete(sp))
//@ extern pure policy.Fetcher.Domain(f) domain

//@ spec spd(sp) = sp.DomainSignedPolicyData.SignedPolicyData
//@ spec npol(sp) = len(spd(sp).PolicyData.Policies)
//@ spec pol(sp, i) = spd(sp).PolicyData.Policies[i]

//@ -- C02: the map that merges the assertions, and the table made from it
//@ spec asn(sp, i, j) = pol(sp, i).Assertions[j]
//@ spec tripleKey(a) = iface(tripleof(a.Role, a.Action, a.Resource))
//@ spec denies(a) = eqfold(a.Effect, "deny")
//@ spec merged() = localptr("sync.Map")
//@ spec mval(k) = as(smval(merged(), k), "*util.Assertion")
//@ spec isMerged(a) = smdom(merged(), tripleKey(a)) && imp(denies(a), denies(mval(tripleKey(a))))
//@ spec listOf(rp, r) = as(gval(rp, r), "[]*policy.Assertion")
//@ spec entryFor(e, a) = e.Action == a.Action && a.Resource == e.ResourceDomain + ":" + e.Resource
//@ spec sameEntry(e, f) = e.Action == f.Action && e.ResourceDomain == f.ResourceDomain && e.Resource == f.Resource
//@ spec liveSP(sp) = forall(n, 0, calls("now"), spd(sp).Expires.Time - now(n) > 0)
//@ spec wasEmpty(rp) = forall(r, "string", !old(gdom(rp, r)))

//@ func policy.simplifyAndCachePolicy(ctx, rp, sp) err
//@ requires ctx != nil && rp != nil && complete(sp)
//@ modifies gache(rp)
//@ holds [C22] assertions: is(v, "*util.Assertion") && as(v, "*util.Assertion") != nil
//@ entries [C22] usable: entryOK(v)
//@ emits gache.Gache.SetWithExpire, policy.NewAssertion
//@ logged
//@ plain [C02] 2 99
//@ join [C02]
//@ safety [C22]
//@ overwrite [C02] deny_wins: is(v, "*util.Assertion") && eqfold(as(v, "*util.Assertion").Effect, "deny")
//@ ensures [C09] lifetime: forall(k, 0, calls("gache.Gache.SetWithExpire"), arg("gache.Gache.SetWithExpire", k, 3) > 0 && exists(n, 0, calls("now"), arg("gache.Gache.SetWithExpire", k, 3) == ite(spd(sp).Expires.Time - now(n) > 9223372036854775807, 9223372036854775807, spd(sp).Expires.Time - now(n))))
//@ holds [C02] keyed: is(v, "*util.Assertion") && as(v, "*util.Assertion") != nil && k == tripleKey(as(v, "*util.Assertion"))
//@ holds [C02] stated: exists(i, 0, npol(sp), exists(j, 0, len(pol(sp, i).Assertions), as(v, "*util.Assertion") == asn(sp, i, j)))
//@ invariant [C02] merged: atlevel(0, counting(imp(grouperr(localptr("golang.org/x/sync/errgroup.Group")) == nil, forall(i, 0, iter, pol(sp, i) != nil && forall(j, 0, len(pol(sp, i).Assertions), isMerged(asn(sp, i, j)))))))
//@ invariant [C02] merged_in: atlevel(1, imp(grouperr(localptr("golang.org/x/sync/errgroup.Group")) == nil, forall(i, 0, iterof(0), forall(j, 0, len(pol(sp, i).Assertions), isMerged(asn(sp, i, j))))) && forall(j, 0, iter, isMerged(asn(sp, iterof(0), j))))
//@ invariant [C02] visited: forall(k, "any", imp(seen(k), smdom(merged(), k) && is(smval(merged(), k), "*util.Assertion") && mval(k) != nil && k == tripleKey(mval(k)) && exists(i, 0, npol(sp), exists(j, 0, len(pol(sp, i).Assertions), mval(k) == asn(sp, i, j)))))
//@ invariant [C02] from: imp(wasEmpty(rp), forall(r, "string", imp(gdom(rp, r), forall(p, 0, len(listOf(rp, r)), exists(k, "any", seen(k) && mval(k).Role == r && entryFor(listOf(rp, r)[p], mval(k)) && iff(listOf(rp, r)[p].Effect != nil, denies(mval(k))))))))
//@ invariant [C02] covered: imp(wasEmpty(rp) && liveSP(sp), forall(k, "any", imp(seen(k), gdom(rp, mval(k).Role) && exists(p, 0, len(listOf(rp, mval(k).Role)), entryFor(listOf(rp, mval(k).Role)[p], mval(k))))))
//@ invariant [C02] lists: imp(wasEmpty(rp), forall(r, "string", imp(gdom(rp, r), is(gval(rp, r), "[]*policy.Assertion"))))
//@ invariant [C02] order: imp(wasEmpty(rp), forall(r, "string", imp(gdom(rp, r), forall(q, 0, len(listOf(rp, r)), forall(p, 0, q, imp(listOf(rp, r)[p].Effect == nil, listOf(rp, r)[q].Effect == nil))))))
//@ invariant [C02] distinct: imp(wasEmpty(rp), forall(r, "string", imp(gdom(rp, r), forall(q, 0, len(listOf(rp, r)), forall(p, 0, q, !sameEntry(listOf(rp, r)[p], listOf(rp, r)[q]))))))
//@ ensures [C02] order: imp(wasEmpty(rp), forall(r, "string", imp(gdom(rp, r), forall(q, 0, len(listOf(rp, r)), forall(p, 0, q, imp(listOf(rp, r)[p].Effect == nil, listOf(rp, r)[q].Effect == nil))))))
//@ ensures [C02] distinct: imp(wasEmpty(rp), forall(r, "string", imp(gdom(rp, r), forall(q, 0, len(listOf(rp, r)), forall(p, 0, q, !sameEntry(listOf(rp, r)[p], listOf(rp, r)[q]))))))
//@ ensures [C02] stated: imp(wasEmpty(rp), forall(r, "string", imp(gdom(rp, r), forall(p, 0, len(listOf(rp, r)), exists(i, 0, npol(sp), exists(j, 0, len(pol(sp, i).Assertions), asn(sp, i, j).Role == r && entryFor(listOf(rp, r)[p], asn(sp, i, j)) && imp(listOf(rp, r)[p].Effect != nil, denies(asn(sp, i, j)))))))))
//@ ensures [C02] complete: imp(err == nil && wasEmpty(rp) && liveSP(sp), forall(i, 0, npol(sp), forall(j, 0, len(pol(sp, i).Assertions), gdom(rp, asn(sp, i, j).Role) && exists(p, 0, len(listOf(rp, asn(sp, i, j).Role)), entryFor(listOf(rp, asn(sp, i, j).Role)[p], asn(sp, i, j)) && imp(denies(asn(sp, i, j)), listOf(rp, asn(sp, i, j).Role)[p].Effect != nil)))))
//@ ensures [C02] bad_assertion: imp(err == nil, spd(sp).PolicyData != nil && forall(i, 0, npol(sp), pol(sp, i) != nil))

//@ func policy.fetchAndCachePolicy(ctx, g, f) err
//@ requires ctx != nil && g != nil && f != nil
//@ modifies gache(g)
//@ emits gache.Gache.SetWithExpire, policy.NewAssertion, policy.Fetcher.FetchWithRetry, policy.simplifyAndCachePolicy
//@ logged
//@ safety [C22]
//@ ensures [C10] obtained: imp(err == nil, calls("policy.Fetcher.FetchWithRetry") == 1 && arg("policy.Fetcher.FetchWithRetry", 0, 0) == f && res("policy.Fetcher.FetchWithRetry", 0, 0) != nil)
//@ ensures [C10] loaded: imp(err == nil, calls("policy.simplifyAndCachePolicy") == 1 && arg("policy.simplifyAndCachePolicy", 0, 1) == g && arg("policy.simplifyAndCachePolicy", 0, 2) == res("policy.Fetcher.FetchWithRetry", 0, 0) && res("policy.simplifyAndCachePolicy", 0, 0) == nil)
//@ ensures [C09] same_policy: forall(k, 0, calls("policy.simplifyAndCachePolicy"), arg("policy.simplifyAndCachePolicy", k, 2) == res("policy.Fetcher.FetchWithRetry", 0, 0))

//@ spec FC() = calls("policy.fetchAndCachePolicy")
//@ func policy.(*policyd).Update(p, ctx) err
//@ requires ctx != nil && p != nil && p.rolePolicies != nil && *p.rolePolicies != nil
//@ requires forall(d, "string", imp(has(p.fetchers, d), p.fetchers[d] != nil))
//@ modifies p.rolePolicies
//@ emits gache.Gache.SetWithExpire, policy.NewAssertion, policy.fetchAndCachePolicy, policy.Fetcher.FetchWithRetry, policy.simplifyAndCachePolicy
//@ join [C10]
//@ safety [C22]
//@ ensures [C10] all_domains: imp(err == nil, forall(d, "string", imp(has(p.fetchers, d), exists(k, 0, FC(), arg("policy.fetchAndCachePolicy", k, 2) == p.fetchers[d] && arg("policy.fetchAndCachePolicy", k, 1) == *p.rolePolicies && res("policy.fetchAndCachePolicy", k, 0) == nil))))
//@ ensures [C10] no_failure: imp(err == nil, forall(k, 0, FC(), res("policy.fetchAndCachePolicy", k, 0) == nil))
//@ ensures [C10] replaced: imp(err == nil, p.rolePolicies != old(p.rolePolicies) && fresh(p.rolePolicies) && fresh(*p.rolePolicies))
//@ ensures [C10] kept_on_error: imp(err != nil, p.rolePolicies == old(p.rolePolicies))
//@ ensures [C10] other_table: forall(k, 0, FC(), fresh(arg("policy.fetchAndCachePolicy", k, 1)))
