//go:build gvc

// Contracts for compiled assertions (C03).
package contracts

//@ -- characters that a regular expression would not take literally
//@ spec meta(c) = c == '^' || c == '$' || c == '.' || c == '|' || c == '[' || c == '+' || c == '\\' || c == '(' || c == ')' || c == '{'
//@ -- the expression for the first n characters of a glob
//@ rec globre(g string, n int) string = ite(n <= 0, "^", ite(runeat(g, n-1) == '*', globre(g, n-1) + ".*", ite(runeat(g, n-1) == '?', globre(g, n-1) + ".", ite(meta(runeat(g, n-1)), globre(g, n-1) + "\\" + runestr(runeat(g, n-1)), globre(g, n-1) + runestr(runeat(g, n-1))))))
//@ spec globPattern(g) = globre(g, nrunes(g)) + "$"

//@ func policy.isRegexMetaCharacter(target) r
//@ ensures [C02,C03] metacharacters: iff(r, meta(target))

//@ func policy.patternFromGlob(glob) r
//@ loopval built: globre(glob, iter)
//@ ensures [C02,C03] pattern: r == globPattern(glob)

//@ func policy.NewAssertion(action, resource, effect) a, err
//@ logged
//@ safety [C22]
//@ ensures [C03] no_domain: imp(err == nil, index(resource, ":") >= 0)
//@ ensures [C03] domain: imp(err == nil, a.ResourceDomain == sub(resource, 0, index(resource, ":")))
//@ ensures [C03] action: imp(err == nil, a.ActionRegexp != nil && pattern(a.ActionRegexp) == globPattern(lower(action)))
//@ ensures [C03] resource: imp(err == nil, a.ResourceRegexp != nil && pattern(a.ResourceRegexp) == globPattern(lower(sub(resource, index(resource, ":") + 1, len(resource)))))
//@ ensures [C02] strings: imp(err == nil, a.Action == action && resource == a.ResourceDomain + ":" + a.Resource)
//@ ensures [C02,C03] effect: imp(err == nil, iff(a.Effect != nil, eqfold(effect, "deny")))
//@ ensures [C01,C03] denied: imp(err == nil && a.Effect != nil, cause(a.Effect) == policy.ErrDenyByPolicy)
//@ ensures [*] result: iff(err != nil, a == nil)
//@ ensures [*] usable: imp(err == nil, fresh(a) && a.ActionRegexp != nil && a.ResourceRegexp != nil)
//@ ensures [C02,C03] compiles: imp(err != nil, index(resource, ":") < 0 || app("reErr", "Iface", globPattern(lower(action))) != nil || app("reErr", "Iface", globPattern(lower(sub(resource, index(resource, ":") + 1, len(resource))))) != nil)
