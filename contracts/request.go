//go:build gvc

// Contracts for whole requests (C13).
package contracts

//@ extern pure request.(*PostExtractionFilter).ExtractToken(f, r) tok, err

//@ extern event func authorizerd.authorizer(f, r, act, res) p, err
//@ spec AZ() = calls("func authorizerd.authorizer")
//@ spec azErr(k) = res("func authorizerd.authorizer", k, 1)
//@ spec asked(a, r, act, res) = forall(k, 0, AZ(), arg("func authorizerd.authorizer", k, 0) == a.authorizers[k] && arg("func authorizerd.authorizer", k, 1) == r && arg("func authorizerd.authorizer", k, 2) == act && arg("func authorizerd.authorizer", k, 3) == res)

//@ func authorizerd.(*authority).Verify(a, r, act, res) err
//@ requires a != nil && forall(i, 0, len(a.authorizers), a.authorizers[i] != nil)
//@ emits func authorizerd.authorizer
//@ ensures [C13] in_order: AZ() <= len(a.authorizers) && asked(a, r, act, res)
//@ ensures [C13] accepted: imp(err == nil, AZ() >= 1 && azErr(AZ() - 1) == nil)
//@ ensures [C13] first: forall(k, 0, AZ(), imp(err != nil || k < AZ() - 1, azErr(k) != nil))
//@ ensures [C13] all_rejected: imp(err != nil, AZ() == len(a.authorizers) && err == authorizerd.ErrInvalidCredentials)

//@ func authorizerd.(*authority).Authorize(a, r, act, res) p, err
//@ requires a != nil && forall(i, 0, len(a.authorizers), a.authorizers[i] != nil)
//@ emits func authorizerd.authorizer
//@ ensures [C13] in_order: AZ() <= len(a.authorizers) && asked(a, r, act, res)
//@ ensures [C13] accepted: imp(err == nil, AZ() >= 1 && azErr(AZ() - 1) == nil && p == res("func authorizerd.authorizer", AZ() - 1, 0))
//@ ensures [C13] first: forall(k, 0, AZ(), imp(err != nil || k < AZ() - 1, azErr(k) != nil))
//@ ensures [C13] all_rejected: imp(err != nil, p == nil && AZ() == len(a.authorizers) && err == authorizerd.ErrInvalidCredentials)

//@ func authorizerd.(*authority).AuthorizeRoleCert(a, ctx, certs, act, res) p, err
//@ logged
//@ ensures [C13] not_implemented: p == nil && err != nil

//@ spec b2i(b) = ite(b, 1, 0)
//@ spec ARC() = calls("authorizerd.(*authority).AuthorizeRoleCert")
//@ spec AUZ() = calls("authorizerd.(*authority).authorize")
//@ spec auArg(i) = arg("authorizerd.(*authority).authorize", 0, i)
//@ spec auRes(i) = res("authorizerd.(*authority).authorize", 0, i)
//@ spec bearer(i, r) = pure("request.(*PostExtractionFilter).ExtractToken", i, request.AuthorizationHeaderExtractor, r)
//@ spec peer(r) = ite(r.TLS != nil && len(r.TLS.PeerCertificates) > 0, r.TLS.PeerCertificates[0], nil)
//@ spec atIndex(a) = b2i(a.enableRoleCert)
//@ spec rtIndex(a) = b2i(a.enableRoleCert) + b2i(a.accessTokenParam.enable)
//@ spec reqOK(a, r) = r != nil && r.URL != nil && wired(a) && cachedPrincipals(a)

//@ func authorizerd.(*authority).initAuthorizers(a) err
//@ requires a != nil
//@ modifies a.authorizers
//@ ensures [C13] none: iff(err != nil, !a.enableRoleCert && !a.accessTokenParam.enable && !a.enableRoleToken)
//@ ensures [C13] count: imp(err == nil, len(a.authorizers) == b2i(a.enableRoleCert) + b2i(a.accessTokenParam.enable) + b2i(a.enableRoleToken))
//@ closure [C13] role_certificate: on(err == nil && a.enableRoleCert, a.authorizers[0], reqOK(a, a0),
//@   ARC() == 1 && AUZ() == 0 && r0 == res("authorizerd.(*authority).AuthorizeRoleCert", 0, 0) && r1 == res("authorizerd.(*authority).AuthorizeRoleCert", 0, 1) && arg("authorizerd.(*authority).AuthorizeRoleCert", 0, 0) == a && arg("authorizerd.(*authority).AuthorizeRoleCert", 0, 3) == a1 && arg("authorizerd.(*authority).AuthorizeRoleCert", 0, 4) == a2 &&
//@   arglen("authorizerd.(*authority).AuthorizeRoleCert", 0, 2) == ite(a0.TLS != nil, len(a0.TLS.PeerCertificates), 0) && forall(i, 0, arglen("authorizerd.(*authority).AuthorizeRoleCert", 0, 2), argat("authorizerd.(*authority).AuthorizeRoleCert", 0, 2, i) == a0.TLS.PeerCertificates[i]))
//@ closure [C13] access_token: on(err == nil && a.accessTokenParam.enable, a.authorizers[atIndex(a)], reqOK(a, a0),
//@   ite(bearer(1, a0) != nil, AUZ() == 0 && r0 == nil && r1 != nil, AUZ() == 1 && r0 == auRes(0) && r1 == auRes(1) && auArg(0) == a && auArg(2) == authorizerd.accessToken && auArg(3) == bearer(0, a0) && auArg(4) == a1 && auArg(5) == a2 && auArg(6) == a0.URL.RawQuery && auArg(7) == peer(a0)))
//@ closure [C13] role_token: on(err == nil && a.enableRoleToken, a.authorizers[rtIndex(a)], reqOK(a, a0),
//@   AUZ() == 1 && r0 == auRes(0) && r1 == auRes(1) && auArg(0) == a && auArg(2) == authorizerd.roleToken && auArg(3) == header(a0.Header, a.roleAuthHeader) && auArg(4) == a1 && auArg(5) == a2 && auArg(6) == a0.URL.RawQuery && auArg(7) == nil)
