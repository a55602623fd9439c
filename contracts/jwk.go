//go:build gvc

// Contracts of the web key daemon (C18).
package contracts

//@ extern event jwk.Fetch(ctx, urlstring, options) set, err
//@ ensures some: imp(err == nil, set != nil)
//@ extern pure jwx/jwk.WithHTTPClient(c) opt
//@ extern pure jwk.Set.LookupKeyID(s, kid) key, ok
//@ ensures some: imp(ok, key != nil)

//@ spec FT() = calls("jwk.Fetch")
//@ spec ftURL(k) = arg("jwk.Fetch", k, 1)
//@ spec ftSet(k) = res("jwk.Fetch", k, 0)
//@ spec ftErr(k) = res("jwk.Fetch", k, 1)
//@ spec configured(j, u) = u == j.athenzJwksURL || exists(i, 0, len(j.urls), j.urls[i] == u)
//@ spec repeated(j) = exists(i, 0, len(j.urls), j.urls[i] == j.athenzJwksURL)
//@ spec keySets(j) = forall(u, "string", imp(smdom(j.keys, u), smval(j.keys, u) != nil && is(smval(j.keys, u), "jwk.Set") && configured(j, u)))
//@ spec fetched(u) = exists(k, 0, FT(), ftURL(k) == u && ftErr(k) == nil)

//@ func jwk.(*jwkd).Update(j, ctx) err
//@ requires j != nil && j.keys != nil && keySets(j)
//@ modifies *j.keys
//@ emits jwk.Fetch
//@ safety [C22]
//@ ensures [C18] every_url: exists(k, 0, FT(), ftURL(k) == j.athenzJwksURL) && forall(i, 0, len(j.urls), i < FT() && ftURL(i) == j.urls[i] || i + 1 < FT() && ftURL(i + 1) == j.urls[i] || exists(k, 0, FT(), ftURL(k) == j.urls[i]))
//@ ensures [C18] only_configured: forall(k, 0, FT(), configured(j, ftURL(k)))
//@ ensures [C18] once: FT() == len(j.urls) + ite(repeated(j), 0, 1)
//@ ensures [C18] client: forall(k, 0, FT(), arg("jwk.Fetch", k, 0) == ctx && arglen("jwk.Fetch", k, 2) == 1 && argat("jwk.Fetch", k, 2, 0) == pure("jwx/jwk.WithHTTPClient", j.client))
//@ ensures [C18] error: iff(err != nil, exists(k, 0, FT(), ftErr(k) != nil))
//@ ensures [C18] replaced: forall(u, "string", imp(fetched(u), smdom(j.keys, u) && exists(k, 0, FT(), ftURL(k) == u && ftErr(k) == nil && smval(j.keys, u) == ftSet(k) && forall(l, k + 1, FT(), imp(ftURL(l) == u, ftErr(l) != nil)))))
//@ ensures [C18] kept: forall(u, "string", imp(!fetched(u), smdom(j.keys, u) == old(smdom(j.keys, u)) && smval(j.keys, u) == old(smval(j.keys, u))))
//@ ensures [*] invariant: keySets(j)

//@ spec source(j, u) = ite(u == "", j.athenzJwksURL, u)
//@ spec theSet(j, u) = smval(j.keys, source(j, u))
//@ spec theKey(j, id, u) = pure("jwk.Set.LookupKeyID", 0, theSet(j, u), id)

//@ spec keyOf(j, id, u, key) = id != "" && smdom(j.keys, source(j, u)) && configured(j, source(j, u)) && pure("jwk.Set.LookupKeyID", 1, theSet(j, u), id) && app("jwkRawErr", "Iface", theKey(j, id, u)) == nil && key == app("jwkRaw", "Iface", theKey(j, id, u))

//@ func jwk.(*jwkd).getKey(j, keyID, jwkSetURL) key
//@ requires j != nil && j.keys != nil && keySets(j)
//@ safety [C22]
//@ ensures [C18] found: imp(key != nil, keyOf(j, keyID, jwkSetURL, key))
//@ ensures [C18] complete: imp(keyID != "" && smdom(j.keys, source(j, jwkSetURL)) && pure("jwk.Set.LookupKeyID", 1, theSet(j, jwkSetURL), keyID) && app("jwkRawErr", "Iface", theKey(j, keyID, jwkSetURL)) == nil, key == app("jwkRaw", "Iface", theKey(j, keyID, jwkSetURL)))

//@ func jwk.(*jwkd).GetProvider(j) f
//@ requires j != nil
//@ closure [C18] provider: on(true, f, j.keys != nil && keySets(j), imp(r0 != nil, keyOf(j, a0, a1, r0)))
