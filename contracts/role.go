//go:build gvc

// Contracts of the role token processor (C04, C22).
package contracts

//@ -- the signed part of a role token, its ";"-separated pairs, and their keys and values
//@ spec cut(tok) = index(tok, ";s=")
//@ spec signed(tok) = sub(tok, 0, cut(tok))
//@ spec npair(tok) = ntok(signed(tok), ";")
//@ spec pair(tok, i) = tok(signed(tok), ";", i)
//@ spec eq(tok, i) = index(pair(tok, i), "=")
//@ spec pkey(tok, i) = sub(pair(tok, i), 0, eq(tok, i))
//@ spec pval(tok, i) = sub(pair(tok, i), eq(tok, i) + 1, len(pair(tok, i)))
//@ spec lastFor(tok, key, i) = pkey(tok, i) == key && forall(l, i + 1, npair(tok), pkey(tok, l) != key)
//@ spec absent(tok, key) = forall(l, 0, npair(tok), pkey(tok, l) != key)
//@ spec numErr(s) = app("P!strconv.ParseInt!1", "Iface", s, 10, 64)
//@ spec num(s) = app("P!strconv.ParseInt!0", "Int", s, 10, 64)
//@ spec badPair(tok, i) = eq(tok, i) < 0 || (pkey(tok, i) == "e" || pkey(tok, i) == "t") && numErr(pval(tok, i)) != nil

//@ func role.(*rtp).parseToken(r, tok) rt, err
//@ safety [C22]
//@ ensures [C04,C22] signature: imp(err == nil, rt != nil && cut(tok) >= 0 && rt.UnsignedToken == signed(tok) && rt.Signature == sub(tok, cut(tok) + 3, len(tok)))
//@ ensures [C04] rejected: iff(err != nil, cut(tok) < 0 || exists(i, 0, npair(tok), badPair(tok, i)))
//@ ensures [C04] domain: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "d", i) && rt.Domain == pval(tok, i)) || absent(tok, "d") && rt.Domain == "")
//@ ensures [C04] principal: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "p", i) && rt.Principal == pval(tok, i)) || absent(tok, "p") && rt.Principal == "")
//@ ensures [C04] keyid: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "k", i) && rt.KeyID == pval(tok, i)) || absent(tok, "k") && rt.KeyID == "")
//@ ensures [C04] expiry: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "e", i) && unix(rt.ExpiryTime) == num(pval(tok, i))) || absent(tok, "e") && zerotime(rt.ExpiryTime))
//@ ensures [C04] issued: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "t", i) && unix(rt.TimeStamp) == num(pval(tok, i))) || absent(tok, "t") && zerotime(rt.TimeStamp))
//@ ensures [C04] roles: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "r", i) && len(rt.Roles) == ntok(pval(tok, i), ",") && forall(j, 0, len(rt.Roles), rt.Roles[j] == tok(pval(tok, i), ",", j))) || absent(tok, "r") && len(rt.Roles) == 0)

//@ spec ztsVerifier(r, rt) = pure("func pubkey.Provider", r.pkp, pubkey.EnvZTS, rt.KeyID)

//@ func role.(*rtp).validate(r, rt) err
//@ requires r != nil && rt != nil
//@ safety [C22]
//@ ensures [C04] unexpired: imp(err == nil, exists(k, 0, calls("now"), now(k) <= rt.ExpiryTime))
//@ ensures [C04] verified: imp(err == nil, r.pkp != nil && ztsVerifier(r, rt) != nil && pure("zmssvctoken.Verifier.Verify", ztsVerifier(r, rt), rt.UnsignedToken, rt.Signature) == nil)
//@ ensures [C04] complete: imp(r.pkp != nil && ztsVerifier(r, rt) != nil && pure("zmssvctoken.Verifier.Verify", ztsVerifier(r, rt), rt.UnsignedToken, rt.Signature) == nil && forall(k, 0, calls("now"), now(k) <= rt.ExpiryTime), err == nil)

//@ func role.(*rtp).ParseAndValidateRoleToken(r, tok) rt, err
//@ requires r != nil
//@ safety [C22]
//@ ensures [C04,C22] signature: imp(err == nil, rt != nil && cut(tok) >= 0 && rt.UnsignedToken == signed(tok) && rt.Signature == sub(tok, cut(tok) + 3, len(tok)))
//@ ensures [C04] verified: imp(err == nil, r.pkp != nil && ztsVerifier(r, rt) != nil && pure("zmssvctoken.Verifier.Verify", ztsVerifier(r, rt), signed(tok), sub(tok, cut(tok) + 3, len(tok))) == nil)
//@ ensures [C04] well_formed: imp(err == nil, forall(i, 0, npair(tok), !badPair(tok, i)))
//@ ensures [C04] unexpired: imp(err == nil, exists(k, 0, calls("now"), exists(i, 0, npair(tok), lastFor(tok, "e", i) && now(k) / 1000000000 <= num(pval(tok, i)))))
//@ ensures [C04] domain: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "d", i) && rt.Domain == pval(tok, i)) || absent(tok, "d") && rt.Domain == "")
//@ ensures [C04] principal: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "p", i) && rt.Principal == pval(tok, i)) || absent(tok, "p") && rt.Principal == "")
//@ ensures [C04] keyid: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "k", i) && rt.KeyID == pval(tok, i)) || absent(tok, "k") && rt.KeyID == "")
//@ ensures [C04] expiry: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "e", i) && unix(rt.ExpiryTime) == num(pval(tok, i))) || absent(tok, "e") && zerotime(rt.ExpiryTime))
//@ ensures [C04] issued: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "t", i) && unix(rt.TimeStamp) == num(pval(tok, i))) || absent(tok, "t") && zerotime(rt.TimeStamp))
//@ ensures [C04] roles: imp(err == nil, exists(i, 0, npair(tok), lastFor(tok, "r", i) && len(rt.Roles) == ntok(pval(tok, i), ",") && forall(j, 0, len(rt.Roles), rt.Roles[j] == tok(pval(tok, i), ",", j))) || absent(tok, "r") && len(rt.Roles) == 0)
//@ ensures [*] none: imp(err != nil, rt == nil)
