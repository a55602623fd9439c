//go:build gvc

// Contracts for initialization (C23).
package contracts

//@ spec PKU() = calls("pubkey.Daemon.Update")
//@ spec POU() = calls("policy.Daemon.Update")
//@ spec JWU() = calls("jwk.Daemon.Update")

//@ func authorizerd.(*authority).Init(a, ctx) err
//@ requires ctx != nil && a != nil && imp(!a.disablePubkeyd, a.pubkeyd != nil) && imp(!a.disablePolicyd, a.policyd != nil) && imp(!a.disableJwkd, a.jwkd != nil)
//@ emits pubkey.Daemon.Update, policy.Daemon.Update, jwk.Daemon.Update
//@ join [C23]
//@ ensures [C23] keys_updated: imp(err == nil && !a.disablePubkeyd, PKU() == 1 && res("pubkey.Daemon.Update", 0, 0) == nil && arg("pubkey.Daemon.Update", 0, 0) == a.pubkeyd)
//@ ensures [C23] policies_updated: imp(err == nil && !a.disablePolicyd, POU() == 1 && res("policy.Daemon.Update", 0, 0) == nil && arg("policy.Daemon.Update", 0, 0) == a.policyd)
//@ ensures [C23] web_keys_updated: imp(err == nil && !a.disableJwkd, JWU() == 1 && res("jwk.Daemon.Update", 0, 0) == nil && arg("jwk.Daemon.Update", 0, 0) == a.jwkd)
//@ ensures [C23] keys_first: imp(POU() > 0 && !a.disablePubkeyd, PKU() == 1 && res("pubkey.Daemon.Update", 0, 0) == nil && before("pubkey.Daemon.Update", "policy.Daemon.Update", 0, 0))
//@ ensures [C23] disabled_untouched: imp(a.disablePubkeyd, PKU() == 0) && imp(a.disablePolicyd, POU() == 0) && imp(a.disableJwkd, JWU() == 0)
//@ ensures [C23] finished: joined()
//@ ensures [C23] failure_reported: forall(k, 0, PKU(), imp(res("pubkey.Daemon.Update", k, 0) != nil, err != nil)) && forall(k, 0, POU(), imp(res("policy.Daemon.Update", k, 0) != nil, err != nil)) && forall(k, 0, JWU(), imp(res("jwk.Daemon.Update", k, 0) != nil, err != nil))
//@ ensures [C23] cancelled: imp(old(ctxdone(ctx)), err != nil)
