//go:build gvc

// Contracts for the authorizer (C11, C12, C13, C22, C23).
package contracts

//@ extern event role.Processor.ParseAndValidateRoleToken(r, tok) rt, err
//@ ensures some: imp(err == nil, rt != nil)
//@ extern event access.Processor.ParseAndValidateOAuth2AccessToken(r, tok, cert) claims, err
//@ ensures some: imp(err == nil, claims != nil)
//@ extern event authorizerd.Translator.Translate(t, domain, method, path, query) act, res, err
//@ extern event policy.Daemon.CheckPolicyRoles(p, ctx, domain, roles, action, resource) authorized, err
//@ extern event policy.Daemon.CheckPolicy(p, ctx, domain, roles, action, resource) err
//@ extern event policy.Daemon.Update(p, ctx) err
//@ extern event pubkey.Daemon.Update(p, ctx) err
//@ extern event jwk.Daemon.Update(p, ctx) err
//@ extern pure authorizerd.Principal.Name(p) name

//@ spec RT() = calls("role.Processor.ParseAndValidateRoleToken")
//@ spec AT() = calls("access.Processor.ParseAndValidateOAuth2AccessToken")
//@ spec TR() = calls("authorizerd.Translator.Translate")
//@ spec CP() = calls("policy.Daemon.CheckPolicyRoles")
//@ spec SETS() = calls("gache.Gache.SetWithExpire")
//@ spec rtRes() = res("role.Processor.ParseAndValidateRoleToken", 0, 0)
//@ spec rtErr() = res("role.Processor.ParseAndValidateRoleToken", 0, 1)
//@ spec atRes() = res("access.Processor.ParseAndValidateOAuth2AccessToken", 0, 0)
//@ spec atErr() = res("access.Processor.ParseAndValidateOAuth2AccessToken", 0, 1)
//@ spec cpRes() = res("policy.Daemon.CheckPolicyRoles", 0, 0)
//@ spec same(s, t) = len(s) == len(t) && forall(i, 0, len(s), s[i] == t[i])

//@ -- the answer came from the cache: what was stored under the key looked up
//@ spec fromCache(a) = calls("gache.Gache.Get") == 1 && arg("gache.Gache.Get", 0, 0) == a.cache && old(gdom(a.cache, arg("gache.Gache.Get", 0, 1))) && RT() + AT() + CP() + SETS() == 0
//@ -- the token processor of the requested kind accepted the token
//@ spec tokenOK(a, m, tok, cert) = imp(m == authorizerd.roleToken, RT() == 1 && AT() == 0 && rtErr() == nil && arg("role.Processor.ParseAndValidateRoleToken", 0, 0) == a.roleProcessor && arg("role.Processor.ParseAndValidateRoleToken", 0, 1) == tok) && imp(m == authorizerd.accessToken, RT() == 0 && AT() == 1 && atErr() == nil && arg("access.Processor.ParseAndValidateOAuth2AccessToken", 0, 0) == a.accessProcessor && arg("access.Processor.ParseAndValidateOAuth2AccessToken", 0, 1) == tok && arg("access.Processor.ParseAndValidateOAuth2AccessToken", 0, 2) == cert)
//@ spec tokDomain(m) = ite(m == authorizerd.roleToken, rtRes().Domain, atRes().Audience)
//@ spec cpArgRoles(roles) = arglen("policy.Daemon.CheckPolicyRoles", 0, 3) == len(roles) && forall(i, 0, len(roles), argat("policy.Daemon.CheckPolicyRoles", 0, 3, i) == roles[i])
//@ spec translated(a, m, act, res, query) = TR() == 1 && res("authorizerd.Translator.Translate", 0, 2) == nil && arg("authorizerd.Translator.Translate", 0, 0) == a.translator && arg("authorizerd.Translator.Translate", 0, 1) == tokDomain(m) && arg("authorizerd.Translator.Translate", 0, 2) == act && arg("authorizerd.Translator.Translate", 0, 3) == res && arg("authorizerd.Translator.Translate", 0, 4) == query
//@ spec cpAction(a, act) = ite(a.translator == nil, act, res("authorizerd.Translator.Translate", 0, 0))
//@ spec cpResource(a, res) = a.resourcePrefix + ite(a.translator == nil, res, res("authorizerd.Translator.Translate", 0, 1))
//@ -- the policy check allowed the token's own domain and roles on the translated action and resource
//@ spec policyOK(a, m, act, res, query) = CP() == 1 && res("policy.Daemon.CheckPolicyRoles", 0, 1) == nil && arg("policy.Daemon.CheckPolicyRoles", 0, 0) == a.policyd && arg("policy.Daemon.CheckPolicyRoles", 0, 2) == tokDomain(m) && imp(m == authorizerd.roleToken, cpArgRoles(rtRes().Roles)) && imp(m == authorizerd.accessToken, cpArgRoles(atRes().Scope)) && imp(a.translator != nil, translated(a, m, act, res, query)) && arg("policy.Daemon.CheckPolicyRoles", 0, 4) == cpAction(a, act) && arg("policy.Daemon.CheckPolicyRoles", 0, 5) == cpResource(a, res)

//@ spec rolePrincipal(a, p) = is(p, "*authorizerd.principal") && let(q, as(p, "*authorizerd.principal"), q.name == rtRes().Principal && same(q.roles, rtRes().Roles) && q.domain == rtRes().Domain && q.issueTime == unix(rtRes().TimeStamp) && q.expiryTime == unix(rtRes().ExpiryTime) && ite(a.disablePolicyd, len(q.authorizedRoles) == 0, same(q.authorizedRoles, cpRes())))
//@ spec accessPrincipal(a, p) = is(p, "*authorizerd.oAuthAccessToken") && let(q, as(p, "*authorizerd.oAuthAccessToken"), q.principal.name == atRes().Subject && same(q.principal.roles, atRes().Scope) && q.principal.domain == atRes().Audience && q.principal.issueTime == atRes().IssuedAt && q.principal.expiryTime == atRes().ExpiresAt && q.clientID == atRes().ClientID && ite(a.disablePolicyd, len(q.principal.authorizedRoles) == 0, same(q.principal.authorizedRoles, cpRes())))

//@ spec wired(a) = a != nil && a.cache != nil && a.roleProcessor != nil && a.accessProcessor != nil && imp(!a.disablePolicyd, a.policyd != nil)
//@ spec cachedPrincipals(a) = forall(k, "string", imp(gdom(a.cache, k), is(gval(a.cache, k), "*authorizerd.principal") || is(gval(a.cache, k), "*authorizerd.oAuthAccessToken")))

//@ spec needsActRes(a, act, res) = !a.disablePolicyd && (act == "" || res == "")

//@ func authorizerd.(*authority).authorize(a, ctx, m, tok, act, res, query, cert) p, err
//@ requires wired(a) && cachedPrincipals(a)
//@ requires m == authorizerd.roleToken || m == authorizerd.accessToken
//@ logged
//@ modifies gache(a.cache)
//@ emits role.Processor.ParseAndValidateRoleToken, access.Processor.ParseAndValidateOAuth2AccessToken, authorizerd.Translator.Translate, policy.Daemon.CheckPolicyRoles, gache.Gache.SetWithExpire
//@ safety [C22]
//@ ensures [C12] validated: imp(err == nil && !fromCache(a), tokenOK(a, m, tok, cert))
//@ ensures [C12] allowed: imp(err == nil && !fromCache(a) && !a.disablePolicyd, policyOK(a, m, act, res, query))
//@ ensures [C12] role_principal: imp(err == nil && !fromCache(a) && m == authorizerd.roleToken, rolePrincipal(a, p))
//@ ensures [C12] access_principal: imp(err == nil && !fromCache(a) && m == authorizerd.accessToken, accessPrincipal(a, p))
//@ ensures [C12] cached_principal: imp(err == nil && fromCache(a), p == old(gval(a.cache, arg("gache.Gache.Get", 0, 1))))
//@ ensures [C12] no_principal: imp(err != nil, p == nil)
//@ ensures [C11] lookup: imp(err == nil && RT() + AT() == 0, fromCache(a) && p == old(gval(a.cache, arg("gache.Gache.Get", 0, 1))))
//@ ensures [C11] stored: imp(err == nil && !fromCache(a), SETS() == 1 && arg("gache.Gache.SetWithExpire", 0, 0) == a.cache && arg("gache.Gache.SetWithExpire", 0, 1) == arg("gache.Gache.Get", 0, 1) && arg("gache.Gache.SetWithExpire", 0, 2) == p && arg("gache.Gache.SetWithExpire", 0, 3) == a.cacheExp)
//@ ensures [C11] failure_not_stored: imp(err != nil, SETS() == 0)
//@ ensures [C11] empty_rejected: imp(needsActRes(a, act, res), err != nil && calls("gache.Gache.Get") == 0)
//@ determines [C11] same_request: determined("gache.Gache.Get", 1, given(a.disablePolicyd, a.translator == nil), tok, cert == nil, ite(cert != nil, cert.Issuer.CommonName, ""), ite(cert != nil, cert.Subject.CommonName, ""), ite(a.disablePolicyd, "", act), ite(a.disablePolicyd, "", res), ite(a.disablePolicyd || a.translator == nil, "", query))
//@ ensures [*] invariant: cachedPrincipals(a)

//@ func authorizerd.(*authority).VerifyRoleToken(a, ctx, tok, act, res) err
//@ requires wired(a) && cachedPrincipals(a)
//@ modifies gache(a.cache)
//@ emits role.Processor.ParseAndValidateRoleToken, access.Processor.ParseAndValidateOAuth2AccessToken, authorizerd.Translator.Translate, policy.Daemon.CheckPolicyRoles, gache.Gache.SetWithExpire, authorizerd.(*authority).authorize
//@ ensures [C12] validated: imp(err == nil && !fromCache(a), tokenOK(a, authorizerd.roleToken, tok, nil))
//@ ensures [C12] allowed: imp(err == nil && !fromCache(a) && !a.disablePolicyd, policyOK(a, authorizerd.roleToken, act, res, ""))

//@ func authorizerd.(*authority).AuthorizeRoleToken(a, ctx, tok, act, res) p, err
//@ requires wired(a) && cachedPrincipals(a)
//@ modifies gache(a.cache)
//@ emits role.Processor.ParseAndValidateRoleToken, access.Processor.ParseAndValidateOAuth2AccessToken, authorizerd.Translator.Translate, policy.Daemon.CheckPolicyRoles, gache.Gache.SetWithExpire, authorizerd.(*authority).authorize
//@ ensures [C12] validated: imp(err == nil && !fromCache(a), tokenOK(a, authorizerd.roleToken, tok, nil))
//@ ensures [C12] allowed: imp(err == nil && !fromCache(a) && !a.disablePolicyd, policyOK(a, authorizerd.roleToken, act, res, ""))
//@ ensures [C12] role_principal: imp(err == nil && !fromCache(a), rolePrincipal(a, p))
//@ ensures [C12] no_principal: imp(err != nil, p == nil)

//@ func authorizerd.(*authority).VerifyAccessToken(a, ctx, tok, act, res, cert) err
//@ requires wired(a) && cachedPrincipals(a)
//@ modifies gache(a.cache)
//@ emits role.Processor.ParseAndValidateRoleToken, access.Processor.ParseAndValidateOAuth2AccessToken, authorizerd.Translator.Translate, policy.Daemon.CheckPolicyRoles, gache.Gache.SetWithExpire, authorizerd.(*authority).authorize
//@ ensures [C12] validated: imp(err == nil && !fromCache(a), tokenOK(a, authorizerd.accessToken, tok, cert))
//@ ensures [C12] allowed: imp(err == nil && !fromCache(a) && !a.disablePolicyd, policyOK(a, authorizerd.accessToken, act, res, ""))

//@ func authorizerd.(*authority).AuthorizeAccessToken(a, ctx, tok, act, res, cert) p, err
//@ requires wired(a) && cachedPrincipals(a)
//@ modifies gache(a.cache)
//@ emits role.Processor.ParseAndValidateRoleToken, access.Processor.ParseAndValidateOAuth2AccessToken, authorizerd.Translator.Translate, policy.Daemon.CheckPolicyRoles, gache.Gache.SetWithExpire, authorizerd.(*authority).authorize
//@ ensures [C12] validated: imp(err == nil && !fromCache(a), tokenOK(a, authorizerd.accessToken, tok, cert))
//@ ensures [C12] allowed: imp(err == nil && !fromCache(a) && !a.disablePolicyd, policyOK(a, authorizerd.accessToken, act, res, ""))
//@ ensures [C12] access_principal: imp(err == nil && !fromCache(a), accessPrincipal(a, p))
//@ ensures [C12] no_principal: imp(err != nil, p == nil)
