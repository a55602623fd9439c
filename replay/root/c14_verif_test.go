package authorizerd

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"testing"
)

func TestVerifC14(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 40000); i++ {
		prefix := h.pick("athenz://role/", "athenz://role/", "athenz://role/", "x://", "")
		doms := []string{"d", "e", "d.e", "", "d:role.x", "a,b", "a", "dr", "d:", "d,r"}
		rls := []string{"r", "s", "r.s", "", "x:role.r", "b,c", "r/s", "r?q", "rs", ":r", "rr", "r,s"}
		var certs []*x509.Certificate
		in := fmt.Sprintf("prefix %q;", prefix)
		for k := h.Intn(4); k > 0; k-- {
			cn := h.pick(h.pick(doms...)+":role."+h.pick(rls...), h.pick(doms...)+":role."+h.pick(rls...), "user.x", "", "d:rolex", "d.role.r", ":role.")
			c := &x509.Certificate{Subject: pkix.Name{CommonName: cn}, Issuer: pkix.Name{CommonName: "z:role.z"}}
			in += fmt.Sprintf(" cert CN=%q", cn)
			for m := h.Intn(4); m > 0; m-- {
				u := h.pick(prefix, prefix, "athenz://role/", "athenz://roles/", "http://h/", "ATHENZ://role/") + h.pick(h.pick(doms...)+"/"+h.pick(rls...), h.pick(doms...)+"/"+h.pick(rls...), "norole", "", "d/", "/r")
				p, err := url.Parse(u)
				if err != nil {
					continue
				}
				c.URIs = append(c.URIs, p)
				in += fmt.Sprintf(" URI=%q", p.String())
			}
			certs = append(certs, c)
		}
		if h.chance(2) {
			certs = nil
		}
		disabled := h.chance(4)
		act, res := h.pick("a", ""), h.pick("r", "")
		want := map[string]map[string]bool{}
		add := func(d, r string) {
			if want[d] == nil {
				want[d] = map[string]bool{}
			}
			want[d][r] = true
		}
		for _, c := range certs {
			if j := strings.Index(c.Subject.CommonName, ":role."); j >= 0 {
				add(c.Subject.CommonName[:j], c.Subject.CommonName[j+6:])
			}
			for _, u := range c.URIs {
				s := u.String()
				if len(s) >= len(prefix) && s[:len(prefix)] == prefix {
					s = s[len(prefix):]
					if j := strings.Index(s, "/"); j >= 0 {
						add(s[:j], s[j+1:])
					}
				}
			}
		}
		allow := map[string]bool{}
		for _, d := range doms {
			allow[d] = h.chance(25)
		}
		in += fmt.Sprintf("; policies disabled %v; allowed domains %v", disabled, allow)
		h.run(in, func() {
			fp := &fakePolicy{f: func(c polCall) ([]string, error) {
				if allow[c.Dom] {
					return c.Roles, nil
				}
				return nil, errScripted
			}}
			a := &authority{policyd: fp, roleCertURIPrefix: prefix, disablePolicyd: disabled}
			err := a.VerifyRoleCert(context.Background(), certs, act, res)
			if disabled {
				if err != nil {
					h.fail("disabled", in, err, nil)
				}
				return
			}
			h.seen(in)
			ok := false
			for d := range want {
				ok = ok || allow[d]
			}
			if (err == nil) != ok {
				h.fail("acceptance", in, err, ok)
			}
			asked := map[string]int{}
			for _, c := range fp.calls {
				asked[c.Dom]++
				got := append([]string{}, c.Roles...)
				sort.Strings(got)
				var w []string
				for r := range want[c.Dom] {
					w = append(w, r)
				}
				sort.Strings(w)
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", w) || c.Act != act || c.Res != res {
					h.fail("roles", in, fmt.Sprintf("%+q", c), fmt.Sprintf("%q", w))
				}
			}
			if err != nil {
				for d := range want {
					if asked[d] == 0 {
						h.fail("domain-not-checked", in, fp.calls, d)
					}
				}
			}
		})
	}
	h.finish("certificates with random common names and URIs; the set of named pairs and the calls of the policy check are compared")
}
