//go:build gvc

// Contracts of the policy check (C01, C22).
package contracts

//@ spec applies(ass, domain, act, res) = eqfold(ass.ResourceDomain, domain) && app("reMatch", "Bool", pattern(ass.ActionRegexp), lower(act)) && app("reMatch", "Bool", pattern(ass.ResourceRegexp), lower(res))
//@ spec entry(domain, role) = domain + ":role." + role
//@ spec list(g, domain, role) = as(gval(g, entry(domain, role)), "[]*policy.Assertion")
//@ spec cached(g, domain, role) = gdom(g, entry(domain, role))
//@ spec firstMatch(g, domain, role, act, res, k) = applies(list(g, domain, role)[k], domain, act, res) && forall(l, 0, k, !applies(list(g, domain, role)[l], domain, act, res))
//@ spec denied(g, domain, role, act, res) = cached(g, domain, role) && exists(k, 0, len(list(g, domain, role)), firstMatch(g, domain, role, act, res, k) && list(g, domain, role)[k].Effect != nil)
//@ spec allowed(g, domain, role, act, res) = cached(g, domain, role) && exists(k, 0, len(list(g, domain, role)), firstMatch(g, domain, role, act, res, k) && list(g, domain, role)[k].Effect == nil)
//@ -- what the policy table holds: lists of usable assertions (established wherever the table is written, see simplifyAndCachePolicy)
//@ spec entryOK(v) = is(v, "[]*policy.Assertion") && forall(i, 0, len(as(v, "[]*policy.Assertion")), let(a, as(v, "[]*policy.Assertion")[i], a != nil && a.ActionRegexp != nil && a.ResourceRegexp != nil))
//@ spec tableOK(g) = forall(key, "string", imp(gdom(g, key), entryOK(gval(g, key))))

//@ func policy.(*policyd).CheckPolicyRoles(p, ctx, domain, roles, action, resource) got, err
//@ requires ctx != nil && p != nil && p.rolePolicies != nil && *p.rolePolicies != nil && tableOK(*p.rolePolicies)
//@ join [C01]
//@ safety [C22]
//@ ensures [C01] one_snapshot: calls("atomic.LoadPointer") == 1
//@ ensures [C01] some_role: imp(err == nil, len(got) > 0)
//@ ensures [C01] allowed_roles: imp(err == nil, forall(j, 0, len(got), exists(i, 0, len(roles), roles[i] == got[j]) && allowed(*p.rolePolicies, domain, got[j], action, resource)))
//@ ensures [C01] all_allowed: imp(err == nil, forall(i, 0, len(roles), imp(allowed(*p.rolePolicies, domain, roles[i], action, resource), exists(j, 0, len(got), got[j] == roles[i]))))
//@ ensures [C01] no_denied: imp(err == nil, forall(i, 0, len(roles), !denied(*p.rolePolicies, domain, roles[i], action, resource)))
//@ ensures [C01] rejected: imp(err != nil && !ctxdone(ctx), exists(i, 0, len(roles), denied(*p.rolePolicies, domain, roles[i], action, resource)) || forall(i, 0, len(roles), !allowed(*p.rolePolicies, domain, roles[i], action, resource)))
//@ ensures [C01] deny_error: imp(err != nil && !ctxdone(ctx) && exists(i, 0, len(roles), denied(*p.rolePolicies, domain, roles[i], action, resource)), exists(i, 0, len(roles), exists(k, 0, len(list(*p.rolePolicies, domain, roles[i])), firstMatch(*p.rolePolicies, domain, roles[i], action, resource, k) && err == list(*p.rolePolicies, domain, roles[i])[k].Effect)))
//@ ensures [C01] no_match_error: imp(err != nil && !ctxdone(ctx) && !exists(i, 0, len(roles), denied(*p.rolePolicies, domain, roles[i], action, resource)), cause(err) == policy.ErrNoMatch)
//@ ensures [*] none: imp(err != nil, len(got) == 0)

//@ func policy.(*policyd).CheckPolicy(p, ctx, domain, roles, action, resource) err
//@ requires ctx != nil && p != nil && p.rolePolicies != nil && *p.rolePolicies != nil && tableOK(*p.rolePolicies)
//@ safety [C22]
//@ ensures [C01] granted: imp(err == nil, exists(i, 0, len(roles), allowed(*p.rolePolicies, domain, roles[i], action, resource)) && forall(i, 0, len(roles), !denied(*p.rolePolicies, domain, roles[i], action, resource)))
//@ ensures [C01] rejected: imp(err != nil && !ctxdone(ctx), exists(i, 0, len(roles), denied(*p.rolePolicies, domain, roles[i], action, resource)) || forall(i, 0, len(roles), !allowed(*p.rolePolicies, domain, roles[i], action, resource)))
