//go:build gvc

// Contracts of the constructors (C19): every option given is applied after the defaults, in order; and the authorizer
// hands each parameter to the component it belongs to.
package contracts

//@ extern event func pubkey.Option(f, p) err
//@ havoc 1
//@ spec pubkeyOpt(opts, k) = ite(k < len(pubkey.defaultOptions), pubkey.defaultOptions[k], opts[k - len(pubkey.defaultOptions)])

//@ func pubkey.New(opts) d, err
//@ requires forall(k, 0, len(opts), opts[k] != nil)
//@ logged
//@ emits func pubkey.Option
//@ ensures [C19] made: imp(err == nil, is(d, "*pubkey.pubkeyd") && as(d, "*pubkey.pubkeyd") != nil && fresh(as(d, "*pubkey.pubkeyd"))) && imp(err != nil, d == nil)
//@ ensures [C19] applied: imp(err == nil, calls("func pubkey.Option") == len(pubkey.defaultOptions) + len(opts)) && forall(k, 0, calls("func pubkey.Option"), arg("func pubkey.Option", k, 0) == pubkeyOpt(opts, k) && imp(err == nil, arg("func pubkey.Option", k, 1) == as(d, "*pubkey.pubkeyd")))
//@ ensures [C19] refused: iff(err == nil, forall(k, 0, calls("func pubkey.Option"), res("func pubkey.Option", k, 0) == nil))

//@ extern event func jwk.Option(f, p) err
//@ havoc 1
//@ spec jwkOpt(opts, k) = ite(k < len(jwk.defaultOptions), jwk.defaultOptions[k], opts[k - len(jwk.defaultOptions)])

//@ func jwk.New(opts) d, err
//@ requires forall(k, 0, len(opts), opts[k] != nil)
//@ logged
//@ emits func jwk.Option
//@ ensures [C19] made: imp(err == nil, is(d, "*jwk.jwkd") && as(d, "*jwk.jwkd") != nil && fresh(as(d, "*jwk.jwkd"))) && imp(err != nil, d == nil)
//@ ensures [C19] applied: imp(err == nil, calls("func jwk.Option") == len(jwk.defaultOptions) + len(opts)) && forall(k, 0, calls("func jwk.Option"), arg("func jwk.Option", k, 0) == jwkOpt(opts, k) && imp(err == nil, arg("func jwk.Option", k, 1) == as(d, "*jwk.jwkd")))
//@ ensures [C19] refused: iff(err == nil, forall(k, 0, calls("func jwk.Option"), res("func jwk.Option", k, 0) == nil))

//@ extern event func role.Option(f, p) err
//@ havoc 1
//@ spec roleOpt(opts, k) = ite(k < len(role.defaultOptions), role.defaultOptions[k], opts[k - len(role.defaultOptions)])

//@ func role.New(opts) d, err
//@ requires forall(k, 0, len(opts), opts[k] != nil)
//@ logged
//@ emits func role.Option
//@ ensures [C19] made: imp(err == nil, is(d, "*role.rtp") && as(d, "*role.rtp") != nil && fresh(as(d, "*role.rtp"))) && imp(err != nil, d == nil)
//@ ensures [C19] applied: imp(err == nil, calls("func role.Option") == len(role.defaultOptions) + len(opts)) && forall(k, 0, calls("func role.Option"), arg("func role.Option", k, 0) == roleOpt(opts, k) && imp(err == nil, arg("func role.Option", k, 1) == as(d, "*role.rtp")))
//@ ensures [C19] refused: iff(err == nil, forall(k, 0, calls("func role.Option"), res("func role.Option", k, 0) == nil))

//@ extern event func access.Option(f, p) err
//@ havoc 1
//@ spec accessOpt(opts, k) = ite(k < len(access.defaultOptions), access.defaultOptions[k], opts[k - len(access.defaultOptions)])

//@ func access.New(opts) d, err
//@ requires forall(k, 0, len(opts), opts[k] != nil)
//@ logged
//@ emits func access.Option
//@ ensures [C19] made: imp(err == nil, is(d, "*access.atp") && as(d, "*access.atp") != nil && fresh(as(d, "*access.atp"))) && imp(err != nil, d == nil)
//@ ensures [C19] applied: imp(err == nil, calls("func access.Option") == len(access.defaultOptions) + len(opts)) && forall(k, 0, calls("func access.Option"), arg("func access.Option", k, 0) == accessOpt(opts, k) && imp(err == nil, arg("func access.Option", k, 1) == as(d, "*access.atp")))
//@ ensures [C19] refused: iff(err == nil, forall(k, 0, calls("func access.Option"), res("func access.Option", k, 0) == nil))

//@ extern event func policy.Option(f, p) err
//@ havoc 1
//@ spec policyOpt(opts, k) = ite(k < len(policy.defaultOptions), policy.defaultOptions[k], opts[k - len(policy.defaultOptions)])

//@ func policy.New(opts) d, err
//@ requires forall(k, 0, len(opts), opts[k] != nil)
//@ logged
//@ emits func policy.Option
//@ ensures [C19] made: imp(err == nil, is(d, "*policy.policyd") && as(d, "*policy.policyd") != nil && fresh(as(d, "*policy.policyd"))) && imp(err != nil, d == nil)
//@ ensures [C19] applied: imp(err == nil, calls("func policy.Option") == len(policy.defaultOptions) + len(opts)) && forall(k, 0, calls("func policy.Option"), arg("func policy.Option", k, 0) == policyOpt(opts, k) && imp(err == nil, arg("func policy.Option", k, 1) == as(d, "*policy.policyd")))
//@ ensures [C19] refused: iff(err == nil, forall(k, 0, calls("func policy.Option"), res("func policy.Option", k, 0) == nil))
//@ ensures [C19] fetchers: imp(err == nil, forall(i, 0, len(built(d).athenzDomains), has(built(d).fetchers, built(d).athenzDomains[i])) && forall(m, "string", imp(has(built(d).fetchers, m), fetches(built(d), m, as(built(d).fetchers[m], "*policy.fetcher")))))
//@ spec built(d) = as(d, "*policy.policyd")
//@ spec fetches(p, m, f) = is(p.fetchers[m], "*policy.fetcher") && f != nil && f.domain == m && f.expiryMargin == p.expiryMargin && f.retryDelay == p.retryDelay && f.retryAttempts == p.retryAttempts && f.athenzURL == p.athenzURL && f.client == p.client && f.policyCache == nil && f.spVerifier != nil && exists(i, 0, len(p.athenzDomains), p.athenzDomains[i] == m)

//@ extern pure pubkey.Daemon.GetProvider(d) p
//@ extern pure jwk.Daemon.GetProvider(d) p
//@ extern event func authorizerd.Option(f, p) err
//@ havoc 1
//@ spec keysOf(a) = ite(a.disablePubkeyd, nil, pure("pubkey.Daemon.GetProvider", a.pubkeyd))
//@ spec webKeysOf(a) = ite(a.disableJwkd, nil, pure("jwk.Daemon.GetProvider", a.jwkd))
//@ spec rootOpt(opts, k) = ite(k < len(authorizerd.defaultOptions), authorizerd.defaultOptions[k], opts[k - len(authorizerd.defaultOptions)])
//@ spec made(r) = as(r, "*authorizerd.authority")
//@ spec pubkeyGiven(a) = exists(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithAthenzURL", a.athenzURL)) && exists(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithSysAuthDomain", a.pubkeySysAuthDomain)) && exists(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithETagExpiry", a.pubkeyETagExpiry)) && exists(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithETagPurgePeriod", a.pubkeyETagPurgePeriod)) && exists(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithRefreshPeriod", a.pubkeyRefreshPeriod)) && exists(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithRetryDelay", a.pubkeyRetryDelay)) && exists(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithHTTPClient", a.client))
//@ spec pubkeyOnly(a) = forall(i, 0, arglen("pubkey.New", 0, 0), argat("pubkey.New", 0, 0, i) == pure("pubkey.WithAthenzURL", a.athenzURL) || argat("pubkey.New", 0, 0, i) == pure("pubkey.WithSysAuthDomain", a.pubkeySysAuthDomain) || argat("pubkey.New", 0, 0, i) == pure("pubkey.WithETagExpiry", a.pubkeyETagExpiry) || argat("pubkey.New", 0, 0, i) == pure("pubkey.WithETagPurgePeriod", a.pubkeyETagPurgePeriod) || argat("pubkey.New", 0, 0, i) == pure("pubkey.WithRefreshPeriod", a.pubkeyRefreshPeriod) || argat("pubkey.New", 0, 0, i) == pure("pubkey.WithRetryDelay", a.pubkeyRetryDelay) || argat("pubkey.New", 0, 0, i) == pure("pubkey.WithHTTPClient", a.client))
//@ spec policyGiven(a) = exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithAthenzURL", a.athenzURL)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithAthenzDomains", a.athenzDomains)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithExpiryMargin", a.policyExpiryMargin)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithRefreshPeriod", a.policyRefreshPeriod)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithPurgePeriod", a.policyPurgePeriod)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithRetryDelay", a.policyRetryDelay)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithRetryAttempts", a.policyRetryAttempts)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithHTTPClient", a.client)) && exists(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithPubKeyProvider", keysOf(a)))
//@ spec policyOnly(a) = forall(i, 0, arglen("policy.New", 0, 0), argat("policy.New", 0, 0, i) == pure("policy.WithAthenzURL", a.athenzURL) || argat("policy.New", 0, 0, i) == pure("policy.WithAthenzDomains", a.athenzDomains) || argat("policy.New", 0, 0, i) == pure("policy.WithExpiryMargin", a.policyExpiryMargin) || argat("policy.New", 0, 0, i) == pure("policy.WithRefreshPeriod", a.policyRefreshPeriod) || argat("policy.New", 0, 0, i) == pure("policy.WithPurgePeriod", a.policyPurgePeriod) || argat("policy.New", 0, 0, i) == pure("policy.WithRetryDelay", a.policyRetryDelay) || argat("policy.New", 0, 0, i) == pure("policy.WithRetryAttempts", a.policyRetryAttempts) || argat("policy.New", 0, 0, i) == pure("policy.WithHTTPClient", a.client) || argat("policy.New", 0, 0, i) == pure("policy.WithPubKeyProvider", keysOf(a)))
//@ spec jwkGiven(a) = exists(i, 0, arglen("jwk.New", 0, 0), argat("jwk.New", 0, 0, i) == pure("jwk.WithAthenzJwksURL", a.athenzURL)) && exists(i, 0, arglen("jwk.New", 0, 0), argat("jwk.New", 0, 0, i) == pure("jwk.WithRefreshPeriod", a.jwkRefreshPeriod)) && exists(i, 0, arglen("jwk.New", 0, 0), argat("jwk.New", 0, 0, i) == pure("jwk.WithRetryDelay", a.jwkRetryDelay)) && exists(i, 0, arglen("jwk.New", 0, 0), argat("jwk.New", 0, 0, i) == pure("jwk.WithURLs", a.jwkURLs)) && exists(i, 0, arglen("jwk.New", 0, 0), argat("jwk.New", 0, 0, i) == pure("jwk.WithHTTPClient", a.client))
//@ spec jwkOnly(a) = forall(i, 0, arglen("jwk.New", 0, 0), argat("jwk.New", 0, 0, i) == pure("jwk.WithAthenzJwksURL", a.athenzURL) || argat("jwk.New", 0, 0, i) == pure("jwk.WithRefreshPeriod", a.jwkRefreshPeriod) || argat("jwk.New", 0, 0, i) == pure("jwk.WithRetryDelay", a.jwkRetryDelay) || argat("jwk.New", 0, 0, i) == pure("jwk.WithURLs", a.jwkURLs) || argat("jwk.New", 0, 0, i) == pure("jwk.WithHTTPClient", a.client))
//@ spec roleGiven(a) = exists(i, 0, arglen("role.New", 0, 0), argat("role.New", 0, 0, i) == pure("role.WithPubkeyProvider", keysOf(a)))
//@ spec roleOnly(a) = forall(i, 0, arglen("role.New", 0, 0), argat("role.New", 0, 0, i) == pure("role.WithPubkeyProvider", keysOf(a)))
//@ spec accessGiven(a) = exists(i, 0, arglen("access.New", 0, 0), argat("access.New", 0, 0, i) == pure("access.WithJWKProvider", webKeysOf(a))) && exists(i, 0, arglen("access.New", 0, 0), argat("access.New", 0, 0, i) == pure("access.WithEnableMTLSCertificateBoundAccessToken", a.accessTokenParam.verifyCertThumbprint)) && exists(i, 0, arglen("access.New", 0, 0), argat("access.New", 0, 0, i) == pure("access.WithEnableVerifyClientID", a.accessTokenParam.verifyClientID)) && exists(i, 0, arglen("access.New", 0, 0), argat("access.New", 0, 0, i) == pure("access.WithAuthorizedClientIDs", a.accessTokenParam.authorizedClientIDs)) && exists(i, 0, arglen("access.New", 0, 0), argat("access.New", 0, 0, i) == pure("access.WithClientCertificateGoBackSeconds", a.accessTokenParam.certBackdateDur)) && exists(i, 0, arglen("access.New", 0, 0), argat("access.New", 0, 0, i) == pure("access.WithClientCertificateOffsetSeconds", a.accessTokenParam.certOffsetDur))
//@ spec accessOnly(a) = forall(i, 0, arglen("access.New", 0, 0), argat("access.New", 0, 0, i) == pure("access.WithJWKProvider", webKeysOf(a)) || argat("access.New", 0, 0, i) == pure("access.WithEnableMTLSCertificateBoundAccessToken", a.accessTokenParam.verifyCertThumbprint) || argat("access.New", 0, 0, i) == pure("access.WithEnableVerifyClientID", a.accessTokenParam.verifyClientID) || argat("access.New", 0, 0, i) == pure("access.WithAuthorizedClientIDs", a.accessTokenParam.authorizedClientIDs) || argat("access.New", 0, 0, i) == pure("access.WithClientCertificateGoBackSeconds", a.accessTokenParam.certBackdateDur) || argat("access.New", 0, 0, i) == pure("access.WithClientCertificateOffsetSeconds", a.accessTokenParam.certOffsetDur))

//@ func authorizerd.New(opts) r, err
//@ requires forall(k, 0, len(opts), opts[k] != nil)
//@ emits func authorizerd.Option, pubkey.New, policy.New, jwk.New, role.New, access.New, func pubkey.Option, func policy.Option, func jwk.Option, func role.Option, func access.Option
//@ ensures [C19] made: imp(err == nil, is(r, "*authorizerd.authority") && made(r) != nil) && imp(err != nil, r == nil)
//@ ensures [C19] applied: imp(err == nil, calls("func authorizerd.Option") == len(authorizerd.defaultOptions) + len(opts)) && forall(k, 0, calls("func authorizerd.Option"), arg("func authorizerd.Option", k, 0) == rootOpt(opts, k) && imp(err == nil, arg("func authorizerd.Option", k, 1) == made(r) && res("func authorizerd.Option", k, 0) == nil))
//@ ensures [C19] pubkey_created: imp(err == nil, let(a, made(r), ite(a.disablePubkeyd, calls("pubkey.New") == 0, calls("pubkey.New") == 1 && res("pubkey.New", 0, 1) == nil && a.pubkeyd == res("pubkey.New", 0, 0))))
//@ ensures [C19] pubkey_given: imp(err == nil && calls("pubkey.New") == 1, pubkeyGiven(made(r)))
//@ ensures [C19] pubkey_only: imp(err == nil && calls("pubkey.New") == 1, pubkeyOnly(made(r)))
//@ ensures [C19] policy_created: imp(err == nil, let(a, made(r), ite(a.disablePolicyd, calls("policy.New") == 0, calls("policy.New") == 1 && res("policy.New", 0, 1) == nil && a.policyd == res("policy.New", 0, 0))))
//@ ensures [C19] policy_given: imp(err == nil && calls("policy.New") == 1, policyGiven(made(r)))
//@ ensures [C19] policy_only: imp(err == nil && calls("policy.New") == 1, policyOnly(made(r)))
//@ ensures [C19] jwk_created: imp(err == nil, let(a, made(r), ite(a.disableJwkd, calls("jwk.New") == 0, calls("jwk.New") == 1 && res("jwk.New", 0, 1) == nil && a.jwkd == res("jwk.New", 0, 0))))
//@ ensures [C19] jwk_given: imp(err == nil && calls("jwk.New") == 1, jwkGiven(made(r)))
//@ ensures [C19] jwk_only: imp(err == nil && calls("jwk.New") == 1, jwkOnly(made(r)))
//@ ensures [C19] role_created: imp(err == nil, let(a, made(r), ite(!a.enableRoleToken, calls("role.New") == 0, calls("role.New") == 1 && res("role.New", 0, 1) == nil && a.roleProcessor == res("role.New", 0, 0))))
//@ ensures [C19] role_given: imp(err == nil && calls("role.New") == 1, roleGiven(made(r)))
//@ ensures [C19] role_only: imp(err == nil && calls("role.New") == 1, roleOnly(made(r)))
//@ ensures [C19] access_created: imp(err == nil, let(a, made(r), ite(!a.accessTokenParam.enable, calls("access.New") == 0, calls("access.New") == 1 && res("access.New", 0, 1) == nil && a.accessProcessor == res("access.New", 0, 0))))
//@ ensures [C19] access_given: imp(err == nil && calls("access.New") == 1, accessGiven(made(r)))
//@ ensures [C19] access_only: imp(err == nil && calls("access.New") == 1, accessOnly(made(r)))
