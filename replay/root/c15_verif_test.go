package authorizerd

import (
	"fmt"
	"net/url"
	"regexp"
	"strings"
	"testing"
)

var phRe = regexp.MustCompile(`\{[^{}]*\}`)

func isPH(s string) bool { return len(s) > 2 && s[0] == '{' && s[len(s)-1] == '}' }

// ref translates by the statement; regular is false when placeholders overlap in a way the statement does not settle.
func ref(rules []Rule, method, path, query string) (string, string, error, bool) {
	for _, r := range rules {
		if strings.ToLower(r.Method) != strings.ToLower(method) {
			continue
		}
		pq := strings.SplitN(r.Path, "?", 2)
		rs, qs := strings.Split(pq[0], "/"), strings.Split(path, "/")
		if len(rs) != len(qs) {
			continue
		}
		given, err := url.ParseQuery(query)
		if err != nil {
			return method, path, err, true
		}
		stated := url.Values{}
		if len(pq) == 2 {
			stated, _ = url.ParseQuery(pq[1])
		}
		if len(given) != len(stated) {
			continue
		}
		vals := map[string]string{}
		ok := true
		for i := range rs {
			if isPH(rs[i]) {
				vals[rs[i]] = qs[i]
			} else {
				ok = ok && rs[i] == qs[i]
			}
		}
		for k, v := range given {
			w, has := stated[k]
			if !has || len(v) != 1 {
				ok = false
				continue
			}
			if isPH(w[0]) {
				vals[w[0]] = v[0]
			} else {
				ok = ok && w[0] == v[0]
			}
		}
		if !ok {
			continue
		}
		out := phRe.ReplaceAllStringFunc(r.Resource, func(p string) string {
			if v, ok := vals[p]; ok {
				return v
			}
			return p
		})
		return r.Action, out, nil, true
	}
	return method, path, nil, true
}

func TestVerifC15(t *testing.T) {
	h := newVH(t)
	ph := []string{"{a}", "{b}", "{ab}", "{c}", "{a b}"}
	for i := 0; h.more(i, 25000); i++ {
		mk := func() Rule {
			free := append([]string{}, ph...)
			h.Shuffle(len(free), func(a, b int) { free[a], free[b] = free[b], free[a] })
			var used []string
			seg := func() string {
				if h.chance(45) && len(free) > 0 {
					p := free[0]
					free = free[1:]
					used = append(used, p)
					return p
				}
				return h.pick("x", "y", "", "X", "{", "a}", "x%2Fy")
			}
			p := ""
			for k := 1 + h.Intn(3); k > 0; k-- {
				p += "/" + seg()
			}
			if h.chance(50) {
				p += "?"
				names := []string{"q", "r", "{q}"}
				for k := h.Intn(3); k > 0; k-- {
					p += names[k-1] + "=" + url.QueryEscape(seg()) + "&"
				}
				p = strings.TrimSuffix(p, "&")
			}
			res := ""
			for k := 1 + h.Intn(4); k > 0; k-- {
				if h.chance(60) && len(used) > 0 {
					res += h.pick(used...)
				} else {
					res += h.pick("x", "/", "{zz}", "{", "}", "lit.", h.pick(ph...), "$1", "%s")
				}
			}
			return Rule{Method: h.pick("get", "GET", "post", "Get"), Path: p, Action: h.pick("A1", "A2", "A3"), Resource: res}
		}
		var rules []Rule
		for k := h.Intn(4); k > 0; k-- {
			rules = append(rules, mk())
		}
		rules = append(rules, mk())
		mr, err := NewMappingRules(map[string][]Rule{"d": append([]Rule{}, rules...), "other": {mk()}})
		if err != nil {
			continue
		}
		for k := 0; k < 3; k++ {
			// a request near one of the rules
			r := rules[h.Intn(len(rules))]
			pq := strings.SplitN(r.Path, "?", 2)
			segs := strings.Split(pq[0], "/")
			for j := range segs {
				if isPH(segs[j]) || h.chance(4) {
					segs[j] = h.pick("v1", "", "{a}", "{b}", "{ab}", "x", "$1", "{", "}")
				}
			}
			path := strings.Join(segs, "/")
			if h.chance(4) {
				path += h.pick("/", "/x", "x")
			}
			q := ""
			if len(pq) == 2 {
				vs, _ := url.ParseQuery(pq[1])
				out := url.Values{}
				for n, v := range vs {
					w := v[0]
					if isPH(w) || h.chance(4) {
						w = h.pick("w1", "{a}", "{b}", "{ab}", "", "x&y", "{c}")
					}
					out.Add(n, w)
					if h.chance(4) {
						out.Add(n, w)
					}
				}
				q = out.Encode()
			}
			if h.chance(4) {
				q = h.pick("", "zz=1", "%zz", "q=1;r=2", "q", "a=%")
			}
			m := h.pick("get", "GET", "POST", "put", r.Method, r.Method)
			dom := h.pick("d", "d", "d", "d", "d", "d", "none", "D")
			in := fmt.Sprintf("rules %+v domain %q method %q path %q query %q", printable(rules), dom, m, path, q)
			h.run(in, func() {
				var wa, wr string
				var we error
				if dom == "d" {
					wa, wr, we, _ = ref(rules, m, path, q)
				} else {
					wa, wr = m, path
				}
				for rep := 0; rep < 4; rep++ {
					ga, gr, ge := mr.Translate(dom, m, path, q)
					if ga != wa || gr != wr || (ge != nil) != (we != nil) {
						h.fail("translation", in, fmt.Sprintf("%q %q %v", ga, gr, ge), fmt.Sprintf("%q %q %v", wa, wr, we))
						break
					}
				}
				h.seen(fmt.Sprint(wa, wr, in))
			})
		}
	}
	h.finish("random rules with placeholders in path and query and requests near them, values that look like placeholders included; a direct reading of the rules decides")
}

func printable(rs []Rule) string {
	s := ""
	for _, r := range rs {
		s += fmt.Sprintf("{%s %s -> %s %s} ", r.Method, r.Path, r.Action, r.Resource)
	}
	return s
}
