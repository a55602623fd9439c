//go:build gvc

// Contracts of the configuration options (C19). Each option sets its parameter and leaves everything else alone.
package contracts

//@ spec dur(t) = pure("time.ParseDuration", 0, t)
//@ spec durErr(t) = pure("time.ParseDuration", 1, t)
//@ spec setDur(t, e, now, was) = ite(t == "", e == nil && now == was, ite(durErr(t) == nil, e == nil && now == dur(t), e != nil && now == was))
//@ spec setSecs(t, e, now, was) = ite(t == "", e == nil && now == was, ite(durErr(t) == nil, e == nil && now == app("f2i", "Int", app("durSeconds", "F64", dur(t))), e != nil && now == was))
//@ spec trimmed(u) = ite(hasprefix(u, "http://"), sub(u, 7, len(u)), ite(hasprefix(u, "https://"), sub(u, 8, len(u)), u))
//@ spec foreign(u) = app("reMatch", "Bool", "^[a-zA-Z][a-zA-Z0-9+-.]*://", u)
//@ spec setURL(u, e, now, was) = ite(foreign(trimmed(u)), e != nil && now == was, e == nil && now == trimmed(u))
//@ spec sameList(s, t) = len(s) == len(t) && forall(i, 0, len(s), s[i] == t[i])

//@ func url.TrimHTTPScheme(url) t
//@ inline
//@ ensures [C19] trimmed: t == trimmed(url)
//@ func url.HasScheme(url) b
//@ inline
//@ ensures [C19] scheme: b == foreign(url)

//@ func access.WithJWKProvider(jwkp) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.jwkp == jwkp, a0.jwkp)
//@ ensures [C19] no_defaults: len(access.defaultOptions) == 0

//@ func access.WithEnableMTLSCertificateBoundAccessToken(b) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.enableMTLSCertificateBoundAccessToken == b, a0.enableMTLSCertificateBoundAccessToken)

//@ func access.WithEnableVerifyClientID(b) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.enableVerifyClientID == b, a0.enableVerifyClientID)

//@ func access.WithAuthorizedClientIDs(m) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.authorizedClientIDs == m, a0.authorizedClientIDs)

//@ func access.WithClientCertificateGoBackSeconds(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setSecs(t, r0, a0.clientCertificateGoBackSeconds, old(a0.clientCertificateGoBackSeconds)), a0.clientCertificateGoBackSeconds)

//@ func access.WithClientCertificateOffsetSeconds(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setSecs(t, r0, a0.clientCertificateOffsetSeconds, old(a0.clientCertificateOffsetSeconds)), a0.clientCertificateOffsetSeconds)

//@ func role.WithPubkeyProvider(pkp) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.pkp == pkp, a0.pkp)
//@ ensures [C19] no_defaults: len(role.defaultOptions) == 0

//@ func jwk.WithAthenzJwksURL(u) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, ite(u == "" || foreign(trimmed(u)), r0 != nil && a0.athenzJwksURL == old(a0.athenzJwksURL), r0 == nil && a0.athenzJwksURL == "https://" + trimmed(u) + "/oauth2/keys?rfc=true"), a0.athenzJwksURL)

//@ func jwk.WithRefreshPeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.refreshPeriod, old(a0.refreshPeriod)), a0.refreshPeriod)

//@ func jwk.WithRetryDelay(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.retryDelay, old(a0.retryDelay)), a0.retryDelay)

//@ spec goodURL(u) = pure("url.ParseRequestURI", 1, u) == nil && (pure("url.ParseRequestURI", 0, u).Scheme == "http" || pure("url.ParseRequestURI", 0, u).Scheme == "https")
//@ extern pure url.ParseRequestURI(u) p, err
//@ ensures some: imp(err == nil, p != nil)

//@ func jwk.WithURLs(urls) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, imp(r0 == nil, sameList(a0.urls, urls) && forall(i, 0, len(urls), goodURL(urls[i]))) && imp(r0 != nil, sameList(a0.urls, old(a0.urls)) && exists(i, 0, len(urls), !goodURL(urls[i]))), a0.urls)

//@ func jwk.WithHTTPClient(cl) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.client == cl, a0.client)
//@ closure [C19] defaults: on(true, jwk.defaultOptions, a0 != nil, r0 == nil && a0.refreshPeriod == 86400000000000 && a0.retryDelay == 60000000000 && a0.client == http.DefaultClient, a0.refreshPeriod, a0.retryDelay, a0.client)

//@ func policy.WithPubKeyProvider(pkp) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.pkp == ite(pkp == nil, old(a0.pkp), pkp), a0.pkp)

//@ func policy.WithAthenzURL(u) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setURL(u, r0, a0.athenzURL, old(a0.athenzURL)), a0.athenzURL)

//@ func policy.WithAthenzDomains(doms) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && ite(doms == nil, sameList(a0.athenzDomains, old(a0.athenzDomains)), sameList(a0.athenzDomains, doms)), a0.athenzDomains)

//@ func policy.WithExpiryMargin(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.expiryMargin, old(a0.expiryMargin)), a0.expiryMargin)

//@ func policy.WithRefreshPeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.refreshPeriod, old(a0.refreshPeriod)), a0.refreshPeriod)

//@ func policy.WithPurgePeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.purgePeriod, old(a0.purgePeriod)), a0.purgePeriod)

//@ func policy.WithRetryDelay(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.retryDelay, old(a0.retryDelay)), a0.retryDelay)

//@ func policy.WithRetryAttempts(c) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.retryAttempts == ite(c == 0, old(a0.retryAttempts), c), a0.retryAttempts)

//@ func policy.WithHTTPClient(c) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.client == ite(c == nil, old(a0.client), c), a0.client)
//@ closure [C19] defaults: on(true, policy.defaultOptions, a0 != nil && http.DefaultClient != nil, r0 == nil && a0.expiryMargin == 10800000000000 && a0.refreshPeriod == 1800000000000 && a0.purgePeriod == 3600000000000 && a0.retryDelay == 60000000000 && a0.retryAttempts == 2 && a0.client == http.DefaultClient, a0.expiryMargin, a0.refreshPeriod, a0.purgePeriod, a0.retryDelay, a0.retryAttempts, a0.client)

//@ func pubkey.WithAthenzURL(u) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setURL(u, r0, a0.athenzURL, old(a0.athenzURL)), a0.athenzURL)

//@ func pubkey.WithSysAuthDomain(d) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.sysAuthDomain == ite(d == "", old(a0.sysAuthDomain), d), a0.sysAuthDomain)

//@ func pubkey.WithRefreshPeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.refreshPeriod, old(a0.refreshPeriod)), a0.refreshPeriod)

//@ func pubkey.WithRetryDelay(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.retryDelay, old(a0.retryDelay)), a0.retryDelay)

//@ func pubkey.WithETagExpiry(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.eTagExpiry, old(a0.eTagExpiry)), a0.eTagExpiry)

//@ func pubkey.WithETagPurgePeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setDur(t, r0, a0.eTagPurgePeriod, old(a0.eTagPurgePeriod)), a0.eTagPurgePeriod)

//@ func pubkey.WithHTTPClient(cl) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.client == cl, a0.client)
//@ closure [C19] defaults: on(true, pubkey.defaultOptions, a0 != nil, r0 == nil && a0.sysAuthDomain == "sys.auth" && a0.refreshPeriod == 86400000000000 && a0.retryDelay == 60000000000 && a0.eTagExpiry == 604800000000000 && a0.eTagPurgePeriod == 302400000000000 && a0.client != nil, a0.sysAuthDomain, a0.refreshPeriod, a0.retryDelay, a0.eTagExpiry, a0.eTagPurgePeriod, a0.client)

//@ func authorizerd.WithAthenzURL(u) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, setURL(u, r0, a0.athenzURL, old(a0.athenzURL)), a0.athenzURL)

//@ func authorizerd.WithAthenzDomains(domains) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && sameList(a0.athenzDomains, domains), a0.athenzDomains)

//@ func authorizerd.WithHTTPClient(c) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && ite(c == nil, a0.client != nil && fresh(a0.client) && a0.client.Timeout == 30000000000, a0.client == c), a0.client)
//@ closure [C19] defaults: on(true, authorizerd.defaultOptions, a0 != nil && a0.cache != nil, r0 == nil && a0.athenzURL == "athenz.io/zts/v1" && a0.client != nil && a0.client.Timeout == 30000000000 && a0.cacheExp == 60000000000 && !a0.disablePubkeyd && !a0.disablePolicyd && !a0.disableJwkd && a0.enableRoleToken && a0.enableRoleCert && a0.roleAuthHeader == "Athenz-Role-Auth" && a0.roleCertURIPrefix == "athenz://role/" && a0.accessTokenParam.enable && a0.accessTokenParam.verifyCertThumbprint && a0.accessTokenParam.certBackdateDur == "1h" && a0.accessTokenParam.certOffsetDur == "1h" && !a0.accessTokenParam.verifyClientID && len(a0.accessTokenParam.authorizedClientIDs) == 0, a0.athenzURL, a0.client, a0.cacheExp, a0.disablePubkeyd, a0.disablePolicyd, a0.disableJwkd, a0.accessTokenParam, a0.enableRoleToken, a0.roleAuthHeader, a0.enableRoleCert, a0.roleCertURIPrefix, calls("gache.Gache.SetDefaultExpire"))

//@ func authorizerd.WithCacheExp(exp) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil && a0.cache != nil, r0 == nil && a0.cacheExp == exp && calls("gache.Gache.SetDefaultExpire") == 1 && arg("gache.Gache.SetDefaultExpire", 0, 0) == a0.cache && arg("gache.Gache.SetDefaultExpire", 0, 1) == exp, a0.cacheExp, calls("gache.Gache.SetDefaultExpire"))

//@ func authorizerd.WithEnablePubkeyd() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && !a0.disablePubkeyd, a0.disablePubkeyd)

//@ func authorizerd.WithDisablePubkeyd() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.disablePubkeyd, a0.disablePubkeyd)

//@ func authorizerd.WithEnablePolicyd() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && !a0.disablePolicyd, a0.disablePolicyd)

//@ func authorizerd.WithDisablePolicyd() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.disablePolicyd, a0.disablePolicyd)

//@ func authorizerd.WithEnableJwkd() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && !a0.disableJwkd, a0.disableJwkd)

//@ func authorizerd.WithDisableJwkd() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.disableJwkd, a0.disableJwkd)

//@ func authorizerd.WithEnableRoleToken() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.enableRoleToken, a0.enableRoleToken)

//@ func authorizerd.WithDisableRoleToken() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && !a0.enableRoleToken, a0.enableRoleToken)

//@ func authorizerd.WithEnableRoleCert() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.enableRoleCert, a0.enableRoleCert)

//@ func authorizerd.WithDisableRoleCert() opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && !a0.enableRoleCert, a0.enableRoleCert)

//@ func authorizerd.WithPubkeyRefreshPeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.pubkeyRefreshPeriod == t, a0.pubkeyRefreshPeriod)

//@ func authorizerd.WithPubkeyRetryDelay(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.pubkeyRetryDelay == t, a0.pubkeyRetryDelay)

//@ func authorizerd.WithPubkeySysAuthDomain(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.pubkeySysAuthDomain == t, a0.pubkeySysAuthDomain)

//@ func authorizerd.WithPubkeyETagExpiry(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.pubkeyETagExpiry == t, a0.pubkeyETagExpiry)

//@ func authorizerd.WithPubkeyETagPurgePeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.pubkeyETagPurgePeriod == t, a0.pubkeyETagPurgePeriod)

//@ func authorizerd.WithPolicyExpiryMargin(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.policyExpiryMargin == t, a0.policyExpiryMargin)

//@ func authorizerd.WithPolicyRefreshPeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.policyRefreshPeriod == t, a0.policyRefreshPeriod)

//@ func authorizerd.WithPolicyPurgePeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.policyPurgePeriod == t, a0.policyPurgePeriod)

//@ func authorizerd.WithPolicyRetryDelay(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.policyRetryDelay == t, a0.policyRetryDelay)

//@ func authorizerd.WithPolicyRetryAttempts(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.policyRetryAttempts == t, a0.policyRetryAttempts)

//@ func authorizerd.WithJwkRefreshPeriod(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.jwkRefreshPeriod == t, a0.jwkRefreshPeriod)

//@ func authorizerd.WithJwkRetryDelay(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.jwkRetryDelay == t, a0.jwkRetryDelay)

//@ func authorizerd.WithRoleAuthHeader(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.roleAuthHeader == t, a0.roleAuthHeader)

//@ func authorizerd.WithRoleCertURIPrefix(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.roleCertURIPrefix == t, a0.roleCertURIPrefix)

//@ func authorizerd.WithTranslator(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.translator == t, a0.translator)

//@ func authorizerd.WithResourcePrefix(t) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && a0.resourcePrefix == t, a0.resourcePrefix)

//@ func authorizerd.WithJwkURLs(urls) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && sameList(a0.jwkURLs, urls), a0.jwkURLs)

//@ spec sameParam(p, q) = p.enable == q.enable && p.verifyCertThumbprint == q.verifyCertThumbprint && p.certBackdateDur == q.certBackdateDur && p.certOffsetDur == q.certOffsetDur && p.verifyClientID == q.verifyClientID && p.authorizedClientIDs == q.authorizedClientIDs

//@ func authorizerd.WithAccessTokenParam(p) opt
//@ constructor
//@ ensures [C19] made: opt != nil
//@ closure [C19] sets: on(true, opt, a0 != nil, r0 == nil && sameParam(a0.accessTokenParam, p), a0.accessTokenParam)

//@ func authorizerd.NewAccessTokenParam(enable, thumb, backdate, offset, client, ids) p
//@ ensures [C19] named: p.enable == enable && p.verifyCertThumbprint == thumb && p.certBackdateDur == backdate && p.certOffsetDur == offset && p.verifyClientID == client && p.authorizedClientIDs == ids
