//go:build gvc

// Contracts of the public key daemon (C17).
package contracts

//@ extern pure zmssvctoken.NewVerifier(key) v, err
//@ ensures some: imp(err == nil, v != nil)

//@ spec remKeys(p, env) = as(gval(p.eTagCache, env), "*pubkey.confCache")
//@ -- what the daemon remembers is complete
//@ spec tagsOK(p) = forall(e, "string", imp(gdom(p.eTagCache, e), is(gval(p.eTagCache, e), "*pubkey.confCache") && remKeys(p, e) != nil && remKeys(p, e).sac != nil))
//@ spec keysURL(p, env) = "https://" + p.athenzURL + "/domain/" + p.sysAuthDomain + "/service/" + env

//@ func pubkey.(*pubkeyd).fetchPubKeyEntries(p, ctx, env) sac, updated, err
//@ requires p != nil && p.client != nil && p.eTagCache != nil && tagsOK(p)
//@ modifies gache(p.eTagCache)
//@ emits http.(*Client).Do, json.Decode, io.Copy, io.Closer.Close, gache.Gache.SetWithExpire
//@ logged
//@ safety [C22]
//@ ensures [C17] downloaded: imp(err == nil && updated, downloaded(sac) && senturl(0) == keysURL(p, env) && arg("http.(*Client).Do", 0, 0) == p.client)
//@ ensures [C17] not_modified: imp(err == nil && !updated, DO() == 1 && resp().StatusCode == 304 && old(gdom(p.eTagCache, env)) && sent(0, "If-None-Match") == old(remKeys(p, env).eTag))
//@ ensures [C17] remembered: imp(err == nil && gdom(p.eTagCache, env), ite(updated, header(resp().Header, "Etag") != "" && remKeys(p, env).eTag == header(resp().Header, "Etag") && remKeys(p, env).sac == sac, gval(p.eTagCache, env) == old(gval(p.eTagCache, env))))
//@ ensures [C17] others: forall(e, "string", imp(e != env, gdom(p.eTagCache, e) == old(gdom(p.eTagCache, e)) && gval(p.eTagCache, e) == old(gval(p.eTagCache, e))))
//@ ensures [*] some: imp(err == nil, sac != nil)
//@ ensures [*] invariant: tagsOK(p)

//@ spec PK() = calls("pubkey.(*pubkeyd).fetchPubKeyEntries")
//@ spec pkEnv(k) = arg("pubkey.(*pubkeyd).fetchPubKeyEntries", k, 2)
//@ spec pkSac(k) = res("pubkey.(*pubkeyd).fetchPubKeyEntries", k, 0)
//@ spec pkUpdated(k) = res("pubkey.(*pubkeyd).fetchPubKeyEntries", k, 1)
//@ spec pkErr(k) = res("pubkey.(*pubkeyd).fetchPubKeyEntries", k, 2)
//@ spec keySet(p, env) = ite(env == pubkey.EnvZTS, p.confCache.ZTSPubKeys, p.confCache.ZMSPubKeys)
//@ spec decoded(key) = app("ybase64", "Str", key)
//@ spec verifier(key) = app("P!zmssvctoken.NewVerifier!0", "Iface", decoded(key))
//@ spec usableKey(key) = app("ybase64Err", "Iface", key) == nil && app("P!zmssvctoken.NewVerifier!1", "Iface", decoded(key)) == nil
//@ spec usableKeys(sac) = forall(i, 0, len(sac.PublicKeys), sac.PublicKeys[i] != nil && usableKey(sac.PublicKeys[i].Key))
//@ spec listed(sac, id) = exists(i, 0, len(sac.PublicKeys), sac.PublicKeys[i].ID == id)
//@ spec unchangedSet(m) = forall(id, "string", smdom(m, id) == old(smdom(m, id)) && smval(m, id) == old(smval(m, id)))
//@ spec holds(m, sac) = forall(id, "string", smdom(m, id) == listed(sac, id) && imp(smdom(m, id), exists(i, 0, len(sac.PublicKeys), sac.PublicKeys[i].ID == id && smval(m, id) == verifier(sac.PublicKeys[i].Key) && forall(l, i + 1, len(sac.PublicKeys), sac.PublicKeys[l].ID != id))))
//@ spec verifiers(m) = forall(id, "string", imp(smdom(m, id), is(smval(m, id), "zmssvctoken.Verifier")))
//@ spec pubkeyd(p) = p != nil && p.client != nil && p.eTagCache != nil && tagsOK(p) && p.confCache != nil && p.confCache.ZTSPubKeys != nil && p.confCache.ZMSPubKeys != nil && p.confCache.ZTSPubKeys != p.confCache.ZMSPubKeys && verifiers(p.confCache.ZTSPubKeys) && verifiers(p.confCache.ZMSPubKeys)
//@ spec pkFailed(k) = pkErr(k) != nil || pkUpdated(k) && !usableKeys(pkSac(k))

//@ func pubkey.(*pubkeyd).Update(p, ctx) err
//@ requires pubkeyd(p)
//@ modifies gache(p.eTagCache); *p.confCache.ZTSPubKeys; *p.confCache.ZMSPubKeys
//@ emits http.(*Client).Do, json.Decode, io.Copy, io.Closer.Close, gache.Gache.SetWithExpire, pubkey.(*pubkeyd).fetchPubKeyEntries
//@ safety [C22]
//@ deletes [C17] still_listed: forall(n, 0, PK(), imp(keySet(p, pkEnv(n)) == m, !exists(i, 0, len(pkSac(n).PublicKeys), iface(pkSac(n).PublicKeys[i].ID) == k)))
//@ ensures [C17] both: PK() == 2 && exists(k, 0, 2, pkEnv(k) == pubkey.EnvZTS) && exists(k, 0, 2, pkEnv(k) == pubkey.EnvZMS)
//@ ensures [C17] installed: forall(k, 0, PK(), imp(!pkFailed(k) && pkUpdated(k), holds(keySet(p, pkEnv(k)), pkSac(k))))
//@ ensures [C17] kept: forall(k, 0, PK(), imp(pkFailed(k) || !pkUpdated(k), unchangedSet(keySet(p, pkEnv(k)))))
//@ ensures [C17] error: iff(err != nil, exists(k, 0, PK(), pkFailed(k)))
//@ ensures [C17] fetched_again: forall(k, 0, PK(), imp(pkFailed(k), !gdom(p.eTagCache, pkEnv(k))))
//@ ensures [*] invariant: pubkeyd(p)

//@ func pubkey.(*pubkeyd).getPubKey(p, env, keyID) v
//@ requires pubkeyd(p)
//@ safety [C22]
//@ ensures [C17] found: imp(v != nil, smdom(keySet(p, env), keyID) && v == smval(keySet(p, env), keyID))
//@ ensures [C17] complete: imp(smdom(keySet(p, env), keyID), v == smval(keySet(p, env), keyID))

//@ func pubkey.(*pubkeyd).GetProvider(p) f
//@ requires p != nil
//@ closure [C17] provider: on(true, f, pubkeyd(p), r0 == ite(smdom(keySet(p, a0), a1), smval(keySet(p, a0), a1), nil))
