package policy

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/kpango/gache"
)

func TestVerifC02(t *testing.T) {
	h := newVH(t)
	type ent struct {
		act, dom, res string
		deny          bool
	}
	parts := []string{"a", "b", ",", ":", "|", "\x00", "*", "role.", "/", " ", "A"}
	for i := 0; h.more(i, 4000); i++ {
		var pols [][]rawAss
		effs := []string{"allow", "deny", "DENY", "Allow", "", "deny"}
		rich, close := h.chance(50), h.chance(30) // close: many triples that differ in one letter's case
		s := func(n int) string {
			if rich {
				return h.str(n, parts...)
			}
			return h.pick("a", "b", "ab", "")
		}
		np := h.Intn(4)
		if h.chance(5) {
			np = 20
		}
		bad := h.chance(8)
		for k := 0; k < np; k++ {
			var p []rawAss
			for m := h.Intn(7); m > 0; m-- {
				if close {
					p = append(p, rawAss{h.pick("d:role.x", "d:role.y", "D:role.x"), h.pick("a", "A", "b"), h.pick("d", "D") + ":" + h.pick("x", "X", ""), h.pick(effs...)})
					continue
				}
				p = append(p, rawAss{h.pick("d:role.", "", "d:role.x") + s(2), s(3), h.pick("d", "", "e") + ":" + s(3), h.pick(effs...)})
			}
			pols = append(pols, p)
		}
		if bad && np > 0 {
			k := h.Intn(np)
			pols[k] = append(pols[k], rawAss{"d:role.x", "a", "nocolon", "allow"})
		}
		in := fmt.Sprintf("%q", pols)
		h.run(in, func() {
			want := map[string]map[string]ent{}
			invalid := false
			for _, p := range pols {
				for _, a := range p {
					if !strings.Contains(a.Resource, ":") {
						invalid = true
						continue
					}
					if want[a.Role] == nil {
						want[a.Role] = map[string]ent{}
					}
					k := fmt.Sprintf("%q %q", a.Action, a.Resource)
					e, ok := want[a.Role][k]
					if !ok {
						e = ent{a.Action, a.dom(), a.res(), false}
					}
					e.deny = e.deny || a.deny()
					want[a.Role][k] = e
				}
			}
			h.seen(in)
			g := gache.New()
			if h.chance(50) {
				runtime.Gosched()
			}
			sp := mkSP("d", time.Now().Add(time.Hour), pols...)
			err := simplifyAndCachePolicy(context.Background(), g, sp)
			if invalid {
				if err == nil {
					h.fail("bad-assertion", in, "no error", "an error")
				}
				return
			}
			if err != nil {
				h.fail("error", in, err, "loaded")
				return
			}
			got := g.ToRawMap(context.Background())
			for r := range got {
				if want[r] == nil {
					h.fail("extra-role", in, r, "not stated")
				}
			}
			for r, es := range want {
				v, ok := got[r]
				if !ok {
					h.fail("lost-role", in, nil, r)
					continue
				}
				var gl, wl []string
				allow := false
				for _, a := range v.([]*Assertion) {
					if a.Effect == nil {
						allow = true
					} else if allow {
						h.fail("deny-first", in, "a denying entry after an allowing one for "+r, "denies first")
					}
					gl = append(gl, fmt.Sprintf("%q", []interface{}{a.Action, a.ResourceDomain, a.Resource, a.Effect != nil}))
				}
				for _, e := range es {
					wl = append(wl, fmt.Sprintf("%q", []interface{}{e.act, e.dom, e.res, e.deny}))
				}
				sort.Strings(gl)
				sort.Strings(wl)
				if fmt.Sprint(gl) != fmt.Sprint(wl) {
					h.fail("entries", in, r+" "+fmt.Sprint(gl), wl)
				}
			}
			// the loaded table decides like the policy it came from
			p := &policyd{rolePolicies: &g}
			tb := table2(pols)
			for k := 0; k < 3; k++ {
				var roles []string
				for r := range want {
					if strings.HasPrefix(r, "d:role.") {
						roles = append(roles, strings.TrimPrefix(r, "d:role."))
						if len(roles) == 1+k {
							break
						}
					}
				}
				sort.Strings(roles)
				act, res := strings.NewReplacer("*", "z").Replace(s(2)), s(2)
				w := tb("d", roles, act, res)
				_, err := p.CheckPolicyRoles(context.Background(), "d", roles, act, res)
				if (err == nil) != w {
					h.fail("decision", fmt.Sprint(in, " roles ", roles, " ", act, " ", res), err, w)
				}
			}
		})
	}
	// the same triple allowed and denied by several policies at once
	for i := 0; h.more(i, 1500); i++ {
		in := fmt.Sprintf("one triple stated by 8 policies, denied by policy %d", i%8)
		h.run(in, func() {
			var pols [][]rawAss
			for k := 0; k < 8; k++ {
				e := "allow"
				if k == i%8 {
					e = "deny"
				}
				pols = append(pols, []rawAss{{"d:role.r", "a", "d:r", e}})
			}
			g := gache.New()
			if err := simplifyAndCachePolicy(context.Background(), g, mkSP("d", time.Now().Add(time.Hour), pols...)); err != nil {
				h.fail("error", in, err, "loaded")
				return
			}
			v, _ := g.Get("d:role.r")
			as, _ := v.([]*Assertion)
			if len(as) != 1 || as[0].Effect == nil {
				h.fail("deny-lost", in, len(as), "one denying entry")
			}
		})
	}
	for i, sp := range []*SignedPolicy{
		func() *SignedPolicy {
			s := mkSP("d", time.Now().Add(time.Hour))
			s.SignedPolicyData.PolicyData = nil
			return s
		}(),
		func() *SignedPolicy {
			s := mkSP("d", time.Now().Add(time.Hour), []rawAss{{"d:role.r", "a", "d:r", "allow"}})
			s.SignedPolicyData.PolicyData.Policies[0].Assertions = append(s.SignedPolicyData.PolicyData.Policies[0].Assertions, (*util.Assertion)(nil))
			return s
		}(),
	} {
		h.run(fmt.Sprint("incomplete policy ", i), func() {
			if err := simplifyAndCachePolicy(context.Background(), gache.New(), sp); err == nil {
				h.fail("incomplete", i, "no error", "an error")
			}
		})
	}
	h.finish("random policies with duplicate and conflicting assertions, concurrent workers; a map keyed by the (role, action, resource) triple decides")
}

func table2(pols [][]rawAss) func(dom string, roles []string, act, res string) bool {
	return func(dom string, roles []string, act, res string) bool {
		ok := false
		for _, r := range roles {
			for _, p := range pols {
				for _, a := range p {
					if a.Role == dom+":role."+r && a.matches(dom, act, res) {
						if a.deny() {
							return false
						}
						ok = true
					}
				}
			}
		}
		return ok
	}
}
