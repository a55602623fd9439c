//go:build gvc

// Contracts of the request translation and the role certificate check (C14, C15, C16, C22).
package contracts

//@ -- C15: when a rule matches a request, and what its placeholders stand for
//@ spec rule(mr, domain, k) = mr.Rules[domain][k]
//@ spec nrule(mr, domain) = len(mr.Rules[domain])
//@ spec nseg(path) = ntok(path, "/")
//@ spec seg(path, i) = tok(path, "/", i)
//@ spec qerr(query) = app("pqerr", "Iface", query)
//@ spec fits(r, method, path) = lower(r.Method) == lower(method) && nseg(path) == len(r.splitPaths)
//@ spec pathOK(r, path) = forall(i, 0, nseg(path), r.splitPaths[i].isPlaceholder || seg(path, i) == r.splitPaths[i].name)
//@ spec queryOK(r, query) = qlen(query) == len(r.queryValueMap) && forall(q, "string", imp(qhas(query, q), qnum(query, q) == 1 && has(r.queryValueMap, q) && (r.queryValueMap[q].isPlaceholder || qval(query, q, 0) == r.queryValueMap[q].name)))
//@ spec matches(r, method, path, query) = fits(r, method, path) && qerr(query) == nil && pathOK(r, path) && queryOK(r, query)
//@ spec firstRule(mr, domain, method, path, query, k) = matches(rule(mr, domain, k), method, path, query) && forall(l, 0, k, !matches(rule(mr, domain, l), method, path, query))
//@ -- (the values of every placeholder, and no others)
//@ spec EX() = calls("authorizerd.expandPlaceholders")
//@ spec given(m, r, path, query) = forall(n, "string", iff(has(m, n), exists(i, 0, nseg(path), r.splitPaths[i].isPlaceholder && r.splitPaths[i].name == n) || exists(q, "string", qhas(query, q) && r.queryValueMap[q].isPlaceholder && r.queryValueMap[q].name == n)))
//@ spec literal(m, r, path, query) = forall(n, "string", imp(has(m, n), exists(i, 0, nseg(path), r.splitPaths[i].isPlaceholder && r.splitPaths[i].name == n && m[n] == seg(path, i)) || exists(q, "string", qhas(query, q) && r.queryValueMap[q].isPlaceholder && r.queryValueMap[q].name == n && m[n] == qval(query, q, 0))))

//@ func authorizerd.(*MappingRules).Translate(mr, domain, method, path, query) act, res, err
//@ requires mr != nil
//@ emits authorizerd.expandPlaceholders, strings.NewReplacer
//@ safety [C22]
//@ ensures [C15] expanded: imp(EX() > 0, EX() == 1 && err == nil && res == res("authorizerd.expandPlaceholders", 0, 0) && exists(k, 0, nrule(mr, domain), firstRule(mr, domain, method, path, query, k) && act == rule(mr, domain, k).Action && arg("authorizerd.expandPlaceholders", 0, 0) == rule(mr, domain, k).Resource))
//@ ensures [C15] values: imp(EX() > 0, exists(k, 0, nrule(mr, domain), firstRule(mr, domain, method, path, query, k) && given(arg("authorizerd.expandPlaceholders", 0, 1), rule(mr, domain, k), path, query) && literal(arg("authorizerd.expandPlaceholders", 0, 1), rule(mr, domain, k), path, query)))
//@ ensures [C15] unchanged: imp(EX() == 0, act == method && res == path)
//@ ensures [C15] no_match: imp(EX() == 0 && err == nil, forall(k, 0, nrule(mr, domain), !matches(rule(mr, domain, k), method, path, query)))
//@ ensures [C15] bad_query: imp(err != nil, qerr(query) != nil && exists(k, 0, nrule(mr, domain), fits(rule(mr, domain, k), method, path)))

//@ spec NR() = calls("strings.NewReplacer")
//@ spec old1(k) = argat("strings.NewReplacer", 0, 0, k)
//@ func authorizerd.expandPlaceholders(resource, values) expanded
//@ emits strings.NewReplacer
//@ logged
//@ safety [C22]
//@ ensures [C15] one_pass: NR() == 1 && expanded == replaced(0, resource)
//@ ensures [C15] pairs: arglen("strings.NewReplacer", 0, 0) == 2 * len(values) && forall(k, 0, len(values), has(values, old1(2*k)) && old1(2*k+1) == values[old1(2*k)])
//@ ensures [C15] all: forall(n, "string", imp(has(values, n), exists(k, 0, len(values), old1(2*k) == n)))
//@ ensures [C15] order: forall(k, 0, len(values), forall(l, 0, k, !(old1(2*l) < old1(2*k))))

//@ -- C16: what makes a rule invalid, and what it is compiled to
//@ spec ph(s) = hasprefix(s, "{") && hassuffix(s, "}") && s != "{}"
//@ spec usedPath(r, s) = exists(j, 0, len(r.splitPaths), r.splitPaths[j].isPlaceholder && r.splitPaths[j].name == s)
//@ spec usedQuery(r, s) = exists(q, "string", has(r.queryValueMap, q) && r.queryValueMap[q].isPlaceholder && r.queryValueMap[q].name == s)

//@ func authorizerd.(*Rule).isPlaceholder(r, s) ok, err
//@ requires r != nil
//@ safety [C22]
//@ ensures [C16] placeholder: iff(ok, ph(s) && !usedPath(r, s) && !usedQuery(r, s))
//@ ensures [C16] unless_refused: imp(err == nil, s != "{}" && ok == ph(s)) && imp(ok, err == nil)
//@ ensures [C16] refused: iff(err != nil, s == "{}" || ph(s) && (usedPath(r, s) || usedQuery(r, s)))

//@ spec pathPart(p) = ite(index(p, "?") < 0, p, sub(p, 0, index(p, "?")))
//@ spec hasQuery(p) = index(p, "?") >= 0
//@ spec queryPart(p) = sub(p, index(p, "?") + 1, len(p))
//@ spec rseg(r, j) = seg(pathPart(r.Path), j)
//@ spec rnseg(r) = nseg(pathPart(r.Path))
//@ spec words(r) = r.Method != "" && r.Action != "" && r.Resource != "" && (r.Path == "" || hasprefix(r.Path, "/"))
//@ spec pathDone(r) = r.splitPaths != nil && len(r.splitPaths) == rnseg(r) && forall(j, 0, len(r.splitPaths), r.splitPaths[j].name == rseg(r, j) && rseg(r, j) != "{}" && r.splitPaths[j].isPlaceholder == ph(r.splitPaths[j].name))
//@ spec queryDone(r) = r.queryValueMap != nil && imp(!hasQuery(r.Path), len(r.queryValueMap) == 0) && imp(hasQuery(r.Path), qerr(queryPart(r.Path)) == nil && forall(q, "string", has(r.queryValueMap, q) == qhas(queryPart(r.Path), q) && imp(qhas(queryPart(r.Path), q), qnum(queryPart(r.Path), q) == 1 && r.queryValueMap[q].name == qval(queryPart(r.Path), q, 0) && r.queryValueMap[q].name != "{}" && r.queryValueMap[q].isPlaceholder == ph(r.queryValueMap[q].name))))
//@ spec pathUnique(r, n) = forall(j, 0, n, forall(l, 0, j, !(r.splitPaths[j].isPlaceholder && r.splitPaths[l].isPlaceholder && r.splitPaths[j].name == r.splitPaths[l].name)))
//@ spec crossUnique(r) = forall(q, "string", imp(has(r.queryValueMap, q) && r.queryValueMap[q].isPlaceholder, forall(j, 0, len(r.splitPaths), !(r.splitPaths[j].isPlaceholder && r.splitPaths[j].name == r.queryValueMap[q].name))))
//@ spec queryUnique(r) = forall(q, "string", forall(p, "string", imp(p != q && has(r.queryValueMap, q) && r.queryValueMap[q].isPlaceholder && has(r.queryValueMap, p) && r.queryValueMap[p].isPlaceholder, r.queryValueMap[p].name != r.queryValueMap[q].name)))
//@ spec compiled(r) = words(r) && pathDone(r) && queryDone(r) && pathUnique(r, len(r.splitPaths)) && crossUnique(r) && queryUnique(r)
//@ spec allRules(mr, d) = d != "" && mr.Rules[d] != nil && forall(k, 0, nrule(mr, d), compiled(rule(mr, d, k)))
//@ spec badSegments(r) = exists(j, 0, rnseg(r), rseg(r, j) == "{}" || ph(rseg(r, j)) && exists(l, 0, j, rseg(r, l) == rseg(r, j)))
//@ spec badValue(r, q) = qval(queryPart(r.Path), q, 0) == "{}" || ph(qval(queryPart(r.Path), q, 0)) && (exists(j, 0, rnseg(r), rseg(r, j) == qval(queryPart(r.Path), q, 0)) || exists(p, "string", p != q && qhas(queryPart(r.Path), p) && qval(queryPart(r.Path), p, 0) == qval(queryPart(r.Path), q, 0)))
//@ spec badQueries(r) = hasQuery(r.Path) && (qerr(queryPart(r.Path)) != nil || exists(q, "string", qhas(queryPart(r.Path), q) && (qnum(queryPart(r.Path), q) != 1 || badValue(r, q))))
//@ spec badRules(mr, d) = d == "" || mr.Rules[d] == nil || exists(k, 0, nrule(mr, d), !words(rule(mr, d, k)) || badSegments(rule(mr, d, k)) || badQueries(rule(mr, d, k)))
//@ spec cur(mr) = rule(mr, keyof(0), iterof(1))
//@ func authorizerd.(*MappingRules).validate(mr) err
//@ requires mr != nil
//@ requires forall(d, "string", forall(e, "string", imp(has(mr.Rules, d) && has(mr.Rules, e) && d != e && mr.Rules[d] != nil, ref(mr.Rules[d]) != ref(mr.Rules[e]))))
//@ noframe
//@ plain [C16] 2
//@ safety [C22]
//@ invariant [C16] domains: atlevel(0, forall(d, "string", imp(seen(d), allRules(mr, d))))
//@ invariant [C16] others: forall(d, "string", imp(seenby(0, d) && d != keyof(0), allRules(mr, d)))
//@ invariant [C16] rules: atlevel(1, forall(k, 0, iter, compiled(rule(mr, keyof(0), k))))
//@ invariant [C16] before: forall(k, 0, iterof(1), compiled(rule(mr, keyof(0), k)))
//@ invariant [C16] path_unique: atlevel(2, pathUnique(cur(mr), iter))
//@ invariant [C16] cross_unique: atlevel(2, crossUnique(cur(mr)))
//@ invariant [C16] query_unique: atlevel(2, queryUnique(cur(mr)))
//@ ensures [C16] refused: imp(err != nil, exists(d, "string", has(mr.Rules, d) && badRules(mr, d)))
//@ ensures [C16] untouched: forall(d, "string", has(mr.Rules, d) == old(has(mr.Rules, d)) && mr.Rules[d] == old(mr.Rules[d]) && forall(k, 0, nrule(mr, d), old(rule(mr, d, k).Method) == rule(mr, d, k).Method && old(rule(mr, d, k).Path) == rule(mr, d, k).Path && old(rule(mr, d, k).Action) == rule(mr, d, k).Action && old(rule(mr, d, k).Resource) == rule(mr, d, k).Resource))
//@ ensures [C16] accepted: imp(err == nil, forall(d, "string", imp(has(mr.Rules, d), allRules(mr, d))))

//@ func authorizerd.NewMappingRules(rules) mr, err
//@ requires forall(d, "string", forall(e, "string", imp(has(rules, d) && has(rules, e) && d != e && rules[d] != nil, ref(rules[d]) != ref(rules[e]))))
//@ noframe
//@ safety [C22]
//@ ensures [C16] absent: imp(rules == nil, err != nil)
//@ ensures [C16] either: (mr == nil) == (err != nil)
//@ ensures [C16] kept: imp(err == nil, mr.Rules == rules)
//@ ensures [C16] refused: imp(err != nil && rules != nil, exists(d, "string", has(rules, d) && (d == "" || rules[d] == nil || exists(k, 0, len(rules[d]), !words(rules[d][k]) || badSegments(rules[d][k]) || badQueries(rules[d][k])))))
//@ ensures [C16] accepted: imp(err == nil, forall(d, "string", imp(has(rules, d), allRules(mr, d))))

//@ -- C14: the roles named by the presented certificates
//@ spec cn(cert) = cert.Subject.CommonName
//@ spec cnNames(cert) = index(cn(cert), ":role.") >= 0
//@ spec cnDomain(cert) = sub(cn(cert), 0, index(cn(cert), ":role."))
//@ spec cnRole(cert) = sub(cn(cert), index(cn(cert), ":role.") + 6, len(cn(cert)))
//@ spec inCN(cert, d, r) = cnNames(cert) && d == cnDomain(cert) && r == cnRole(cert)
//@ spec uriText(cert, j) = app("urlString", "Str", cert.URIs[j])
//@ spec uriTail(a, cert, j) = sub(uriText(cert, j), len(a.roleCertURIPrefix), len(uriText(cert, j)))
//@ spec uriNames(a, cert, j) = hasprefix(uriText(cert, j), a.roleCertURIPrefix) && index(uriTail(a, cert, j), "/") >= 0
//@ spec uriDomain(a, cert, j) = sub(uriTail(a, cert, j), 0, index(uriTail(a, cert, j), "/"))
//@ spec uriRole(a, cert, j) = sub(uriTail(a, cert, j), index(uriTail(a, cert, j), "/") + 1, len(uriTail(a, cert, j)))
//@ spec inURI(a, cert, j, d, r) = uriNames(a, cert, j) && d == uriDomain(a, cert, j) && r == uriRole(a, cert, j)
//@ spec inURIs(a, cert, n, d, r) = exists(j, 0, n, inURI(a, cert, j, d, r))
//@ spec named(a, certs, n, d, r) = exists(i, 0, n, inCN(certs[i], d, r) || inURIs(a, certs[i], len(certs[i].URIs), d, r))
//@ spec seenCN(cert) = imp(cnNames(cert), seenRole(cnDomain(cert), cnRole(cert)))
//@ spec seenURIs(a, cert, n) = forall(j, 0, n, imp(uriNames(a, cert, j), seenRole(uriDomain(a, cert, j), uriRole(a, cert, j))))
//@ spec seenRole(d, r) = has(localof("map[[2]string]struct{}", "map[[2]string]bool"), pairof(d, r))
//@ spec roleLists() = localof("map[string][]string")
//@ spec CPX() = calls("policy.Daemon.CheckPolicy")
//@ spec cpDomain(k) = arg("policy.Daemon.CheckPolicy", k, 2)
//@ spec cpRole(k, i) = argat("policy.Daemon.CheckPolicy", k, 3, i)
//@ spec cpRoles(k) = arglen("policy.Daemon.CheckPolicy", k, 3)
//@ spec cpErr(k) = res("policy.Daemon.CheckPolicy", k, 0)

//@ func authorizerd.(*authority).VerifyRoleCert(a, ctx, peerCerts, act, res) err
//@ requires a != nil && ctx != nil && forall(i, 0, len(peerCerts), peerCerts[i] != nil)
//@ assumes forall(i, 0, len(peerCerts), forall(j, 0, len(peerCerts[i].URIs), peerCerts[i].URIs[j] != nil))
//@ requires imp(!a.disablePolicyd, a.policyd != nil)
//@ emits policy.Daemon.CheckPolicy
//@ plain [C14] 2 2
//@ invariant [C14] counted: atlevel(0, forall(d, "string", forall(r, "string", imp(seenRole(d, r), named(a, peerCerts, iter, d, r)))))
//@ invariant [C14] counted_in: atlevel(1, forall(d, "string", forall(r, "string", imp(seenRole(d, r), named(a, peerCerts, iterof(0), d, r) || inCN(peerCerts[iterof(0)], d, r) || inURIs(a, peerCerts[iterof(0)], iter, d, r)))))
//@ invariant [C14] all: atlevel(0, forall(i, 0, iter, seenCN(peerCerts[i]) && seenURIs(a, peerCerts[i], len(peerCerts[i].URIs))))
//@ invariant [C14] all_in: atlevel(1, forall(i, 0, iterof(0), seenCN(peerCerts[i]) && seenURIs(a, peerCerts[i], len(peerCerts[i].URIs))) && seenCN(peerCerts[iterof(0)]) && seenURIs(a, peerCerts[iterof(0)], iter))
//@ invariant [C14] only: forall(d, "string", forall(k, 0, len(roleLists()[d]), seenRole(d, roleLists()[d][k])))
//@ invariant [C14] listed: forall(d, "string", forall(r, "string", imp(seenRole(d, r), exists(k, 0, len(roleLists()[d]), roleLists()[d][k] == r))))
//@ invariant [C14] distinct: forall(d, "string", forall(k, 0, len(roleLists()[d]), forall(l, 0, k, roleLists()[d][k] != roleLists()[d][l])))
//@ invariant [C14] nonempty: forall(d, "string", has(roleLists(), d) == (len(roleLists()[d]) > 0))
//@ safety [C22]
//@ ensures [C14] disabled: imp(a.disablePolicyd, err == nil && CPX() == 0)
//@ ensures [C14] asked: forall(k, 0, CPX(), arg("policy.Daemon.CheckPolicy", k, 0) == a.policyd && arg("policy.Daemon.CheckPolicy", k, 4) == act && arg("policy.Daemon.CheckPolicy", k, 5) == res)
//@ ensures [C14] only_named: forall(k, 0, CPX(), forall(i, 0, cpRoles(k), named(a, peerCerts, len(peerCerts), cpDomain(k), cpRole(k, i))))
//@ ensures [C14] all_named: forall(k, 0, CPX() - 1, forall(r, "string", imp(named(a, peerCerts, len(peerCerts), cpDomain(k), r), exists(i, 0, cpRoles(k), cpRole(k, i) == r))))
//@ ensures [C14] all_named_last: imp(CPX() > 0, forall(r, "string", imp(named(a, peerCerts, len(peerCerts), cpDomain(CPX() - 1), r), exists(i, 0, cpRoles(CPX() - 1), cpRole(CPX() - 1, i) == r))))
//@ ensures [C14] once: forall(k, 0, CPX(), forall(i, 0, cpRoles(k), forall(j, 0, i, cpRole(k, i) != cpRole(k, j))))
//@ ensures [C14] allowed: imp(err == nil && !a.disablePolicyd, exists(k, 0, CPX(), cpErr(k) == nil))
//@ ensures [C14] rejected: imp(err != nil, forall(k, 0, CPX(), cpErr(k) != nil) && forall(d, "string", forall(r, "string", imp(named(a, peerCerts, len(peerCerts), d, r), exists(k, 0, CPX(), cpDomain(k) == d)))))
