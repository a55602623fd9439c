//go:build gvc

// Contracts for the access package (C05, C06, C07, C22).
package contracts

//@ extern pure func jwk.Provider(f, keyID, url) key

//@ -- C07: the configured list for the certificate's common name contains the token's client ID
//@ spec clientListed(a, cert, c) = exists(k, 0, len(a.authorizedClientIDs[cert.Subject.CommonName]), a.authorizedClientIDs[cert.Subject.CommonName][k] == c.ClientID)

//@ func access.(*atp).validateClientID(a, cert, claims) err
//@ requires a != nil
//@ safety [C22]
//@ ensures [C05,C07] nocert: imp(cert == nil || claims == nil, err != nil)
//@ ensures [C05,C07] listed: imp(cert != nil && claims != nil, iff(err == nil, clientListed(a, cert, claims)))

//@ -- C06: confirmation values as decoded JSON
//@ spec hasThumb(c) = is(c.Confirm["x5t#S256"], "string")
//@ spec thumbMatches(cert, c) = as(c.Confirm["x5t#S256"], "string") == app("base64", "Str", base64.RawURLEncoding, app("sha256", "Str", str(cert.Raw)))
//@ spec inWindow(a, cert, c) = c.IssuedAt <= unix(cert.NotBefore) + a.clientCertificateGoBackSeconds && unix(cert.NotBefore) + a.clientCertificateGoBackSeconds <= c.IssuedAt + a.clientCertificateOffsetSeconds
//@ spec rotated(a, cert, c) = a.clientCertificateOffsetSeconds != 0 && cert.Subject.CommonName != "" && cert.Subject.CommonName == c.ClientID && inWindow(a, cert, c)
//@ spec proxies(c) = as(c.Confirm["proxy-principals#spiffe"], "[]interface{}")
//@ spec viaProxy(cert, c) = is(c.Confirm["proxy-principals#spiffe"], "[]interface{}") && exists(u, 0, len(cert.URIs), exists(p, 0, len(proxies(c)), proxies(c)[p] == iface(app("urlString", "Str", cert.URIs[u]))))
//@ spec bound(a, cert, c) = hasThumb(c) && thumbMatches(cert, c) || hasThumb(c) && rotated(a, cert, c) || viaProxy(cert, c)
//@ spec sane(a, cert) = imp(cert != nil, -(1<<62) < unix(cert.NotBefore) && unix(cert.NotBefore) < 1<<62) && -(1<<61) < a.clientCertificateGoBackSeconds && a.clientCertificateGoBackSeconds < 1<<61 && 0 <= a.clientCertificateOffsetSeconds && a.clientCertificateOffsetSeconds < 1<<61

//@ func access.(*atp).validateCertificateBoundAccessToken(a, cert, claims) err
//@ requires a != nil
//@ assumes sane(a, cert)
//@ assumes imp(cert != nil, forall(i, 0, len(cert.URIs), cert.URIs[i] != nil))
//@ safety [C22]
//@ ensures [C05,C06] nocert: imp(cert == nil || claims == nil, err != nil)
//@ ensures [C05,C06] sound: imp(cert != nil && claims != nil && err == nil, bound(a, cert, claims))
//@ ensures [C06] thumb: imp(cert != nil && claims != nil && hasThumb(claims) && thumbMatches(cert, claims), err == nil)
//@ ensures [C06] rotation: imp(cert != nil && claims != nil && hasThumb(claims) && rotated(a, cert, claims), err == nil)
//@ ensures [C06] proxy: imp(cert != nil && claims != nil && viaProxy(cert, claims), err == nil)

//@ -- C05: claims that are valid at some moment of the call
//@ spec kidOf(cred) = as(jwthdr(cred, "kid"), "string")
//@ spec jkuOf(cred) = ite(jwthas(cred, "jku"), as(jwthdr(cred, "jku"), "string"), "")
//@ spec goodKid(cred) = jwthas(cred, "kid") && is(jwthdr(cred, "kid"), "string")
//@ spec goodJku(cred) = imp(jwthas(cred, "jku"), is(jwthdr(cred, "jku"), "string"))
//@ spec keyFor(a, cred) = pure("func jwk.Provider", a.jwkp, kidOf(cred), jkuOf(cred))

//@ func access.(*atp).ParseAndValidateOAuth2AccessToken(a, cred, cert) claims, err
//@ requires a != nil && a.jwkp != nil
//@ assumes sane(a, cert)
//@ safety [C22]
//@ ensures [C05] kid: imp(err == nil, goodKid(cred))
//@ ensures [C05] jku: imp(err == nil, goodJku(cred))
//@ ensures [C05] signature: imp(err == nil, keyFor(a, cred) != nil && jwtsig(cred, keyFor(a, cred)))
//@ ensures [C05] expiry: imp(err == nil, claims.ExpiresAt != 0 && exists(k, 0, calls("now"), unix(now(k)) < claims.ExpiresAt))
//@ ensures [C05] issued: imp(err == nil, claims.IssuedAt == 0 || exists(k, 0, calls("now"), claims.IssuedAt <= unix(now(k))))
//@ ensures [C05] notbefore: imp(err == nil, claims.NotBefore == 0 || exists(k, 0, calls("now"), claims.NotBefore <= unix(now(k))))
//@ ensures [C05] verified_claims: imp(err == nil, claims != nil && jwtclaims(claims, cred))
//@ ensures [C05] bound_enforced: imp(err == nil && a.enableMTLSCertificateBoundAccessToken, cert != nil && bound(a, cert, claims))
//@ ensures [C05] client_enforced: imp(err == nil && a.enableVerifyClientID, cert != nil && clientListed(a, cert, claims))
//@ ensures [C06] bound: imp(err == nil && a.enableMTLSCertificateBoundAccessToken, cert != nil && bound(a, cert, claims))
//@ ensures [C07] listed: imp(err == nil && a.enableVerifyClientID, cert != nil && clientListed(a, cert, claims))
