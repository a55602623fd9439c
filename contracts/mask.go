//go:build gvc

// Contracts for mask.go (C20, C22).
package contracts

//@ func authorizerd.maskToken(m, tok) s
//@ safety [C20,C22]
//@ ensures [C20] role_cut: imp(m == authorizerd.roleToken && index(tok, ";s=") > 0, s == tok[:index(tok, ";s=")])
//@ ensures [C20] role_none: imp(m == authorizerd.roleToken && index(tok, ";s=") <= 0, s == "mask token error: invalid role token")
//@ ensures [C20] access_cut: imp(m == authorizerd.accessToken && lastindex(tok, ".") > 0, s == tok[:lastindex(tok, ".")])
//@ ensures [C20] access_none: imp(m == authorizerd.accessToken && lastindex(tok, ".") <= 0, s == "mask token error: invalid access token")
//@ ensures [C20] other: imp(m != authorizerd.roleToken && m != authorizerd.accessToken, s == "mask token error: unknown token")

//@ func authorizerd.maskCacheKey(key, tok) s
//@ requires len(tok) <= len(key)
//@ safety [C20,C22]
//@ ensures [C20] suffix: s == key[len(tok):]
