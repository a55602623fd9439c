package authorizerd

import (
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC16(t *testing.T) {
	h := newVH(t)
	isPlace := func(s string) bool { return strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") }
	for i := 0; h.more(i, 40000); i++ {
		seg := func() string {
			return h.pick("x", "y", "", "{a}", "{b}", "{c}", "{d}", "{e}", "x{a}", "{a", "a}", "{}", "{", "}", "{a}{b}", "%7Ba%7D", " {a}")
		}
		one := func() Rule {
			p := ""
			for k := h.Intn(4); k > 0; k-- {
				s := seg()
				if s == "{}" && h.chance(80) {
					s = "x"
				}
				p += "/" + s
			}
			if h.chance(10) {
				p = h.pick("", "x", "x/y", "?q=1", "/?", "//", "/", "{a}/x")
			}
			if h.chance(50) {
				p += "?"
				for k := h.Intn(4); k > 0; k-- {
					s := seg()
					if s == "{}" && h.chance(80) {
						s = "x"
					}
					p += h.pick("q", "r", "s", "{q}", "t") + "=" + s + "&"
				}
				if h.chance(60) {
					p = strings.TrimSuffix(p, "&")
				}
				if h.chance(8) {
					p += h.pick("%zz", "&a=%", ";", "?", "?q=2", "&&", "q")
				}
			}
			r := Rule{Method: h.pick("get", "POST", "*"), Path: p, Action: h.pick("a", "{a}"), Resource: h.pick("r", "{a}.{b}")}
			switch h.Intn(25) {
			case 0:
				r.Method = ""
			case 1:
				r.Action = ""
			case 2:
				r.Resource = ""
			}
			return r
		}
		rules := map[string][]Rule{}
		for k := 1 + h.Intn(3); k > 0; k-- {
			d := h.pick("d", "e", "f", "g")
			if h.chance(3) {
				d = ""
			}
			var l []Rule
			for m := h.Intn(3) + 1; m > 0; m-- {
				l = append(l, one())
			}
			if h.chance(4) {
				l = []Rule{}
			}
			if h.chance(3) {
				l = nil
			}
			rules[d] = l
		}
		if h.chance(1) {
			rules = nil
		}
		if h.chance(30) { // rules that were compiled before, now edited
			NewMappingRules(rules)
			for _, l := range rules {
				for k := range l {
					r := one()
					if h.chance(50) {
						r = l[k] // unchanged, or with other placeholders
						if h.chance(50) {
							r.Path = strings.NewReplacer("{a}", "{b}", "{b}", "{c}", "x", "{a}").Replace(r.Path)
						}
					}
					l[k].Method, l[k].Path, l[k].Action, l[k].Resource = r.Method, r.Path, r.Action, r.Resource
				}
			}
		}
		in := fmt.Sprintf("%#v", rules)
		h.run(in, func() {
			good := rules != nil
			type want struct {
				paths []param
				query map[string]param
			}
			w := map[string][]want{}
			for d, l := range rules {
				good = good && d != "" && l != nil
				for _, r := range l {
					good = good && r.Method != "" && r.Action != "" && r.Resource != "" && (r.Path == "" || r.Path[0] == '/')
					x := want{query: map[string]param{}}
					seenPH := map[string]bool{}
					mark := func(s string) param {
						if s == "{}" {
							good = false
							return param{}
						}
						if isPlace(s) {
							if seenPH[s] {
								good = false
							}
							seenPH[s] = true
						}
						return param{name: s, isPlaceholder: isPlace(s)}
					}
					p, q := r.Path, ""
					if j := strings.Index(p, "?"); j >= 0 {
						p, q = p[:j], p[j+1:]
						vs, err := url.ParseQuery(q)
						good = good && err == nil
						for n, v := range vs {
							if len(v) != 1 {
								good = false
								continue
							}
							x.query[n] = mark(v[0])
						}
					}
					for _, s := range strings.Split(p, "/") {
						x.paths = append(x.paths, mark(s))
					}
					w[d] = append(w[d], x)
				}
			}
			mr, err := NewMappingRules(rules)
			h.seen(in)
			if (err == nil) != good {
				h.fail("acceptance", in, err, good)
				return
			}
			if err != nil {
				if mr != nil {
					h.fail("rules-with-error", in, mr, nil)
				}
				return
			}
			if len(mr.Rules) != len(rules) {
				h.fail("domains", in, len(mr.Rules), len(rules))
			}
			for d, l := range w {
				if len(mr.Rules[d]) != len(l) {
					h.fail("rules", in, len(mr.Rules[d]), len(l))
					continue
				}
				for k, x := range l {
					r := mr.Rules[d][k]
					if !reflect.DeepEqual(r.splitPaths, x.paths) || !(reflect.DeepEqual(r.queryValueMap, x.query) || len(r.queryValueMap)+len(x.query) == 0) {
						h.fail("compiled", in, fmt.Sprintf("%+v %+v", r.splitPaths, r.queryValueMap), fmt.Sprintf("%+v", x))
					}
				}
			}
		})
	}
	h.finish("random rule sets, regular and irregular; a direct reading of the rules decides acceptance and the compiled form")
}
