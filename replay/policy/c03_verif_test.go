package policy

import (
	"context"
	"strings"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestVerifC03(t *testing.T) {
	h := newVH(t)
	parts := []string{"a", "B", "b", "*", "?", ".", "^", "$", "|", "[", "]", "+", "\\", "(", ")", "{", "}", "-", "/", ":", "é", "É", "K", "ß", " ", "x*", "1", "\\d", ".*", "(a)", "a{2}", "[ab]", "=", "&", "#", "日", "!", "~", "\"", ",", ";", "<", ">", "\t"}
	lit := []string{"a", "b", "B", ".", "^", "$", "|", "[", "]", "+", "\\", "(", ")", "{", "}", "-", "/", ":", "é", "É", "k", "ß", " ", "x", "1", "aa", "\\d", "日", "*", "?", "=", "&", "#", "~", "\"", ",", ";", "<", ">", "\t"}
	inst := func(p string) string { // a text that may match p
		r := ""
		for _, c := range p {
			switch {
			case c == '*':
				r += h.str(2, lit...)
			case c == '?':
				r += h.str(1, lit...)
				if h.chance(80) {
					r = r + ""
				}
			case h.chance(6):
				r += h.pick(lit...)
			case h.chance(20):
				r += strings.ToUpper(string(c))
			case h.chance(4):
			default:
				r += string(c)
			}
		}
		return r
	}
	for i := 0; h.more(i, 40000); i++ {
		act, res := h.str(4, parts...), h.str(5, parts...)
		dom := h.pick("d", "Dom", "a.b", "", "x*")
		eff := h.pick("allow", "deny", "DENY", "Deny", "", "deny ", "denyx", "ALLOW", "den")
		full := dom + ":" + res
		if h.chance(5) {
			full = strings.ReplaceAll(dom+res, ":", "")
		}
		if h.chance(3) {
			full = h.pick("", ":", "a:", ":a", "a:b:c", "*:*:*")
		}
		in := map[string]string{"action": act, "resource": full, "effect": eff}
		h.run(in, func() {
			a, err := NewAssertion(act, full, eff)
			if !strings.Contains(full, ":") {
				if err == nil {
					h.fail("no-colon", in, "accepted", "rejected")
				}
				return
			}
			if err != nil {
				h.fail("rejected", in, err, "compiled")
				return
			}
			ra := rawAss{"r", act, full, eff}
			if (a.Effect != nil) != ra.deny() {
				h.fail("effect", in, a.Effect, ra.deny())
			}
			if a.ResourceDomain != ra.dom() {
				h.fail("domain", in, a.ResourceDomain, ra.dom())
			}
			for k := 0; k < 4; k++ {
				qa, qr := inst(act), inst(ra.res())
				if k == 3 {
					qa, qr = h.str(3, lit...), h.str(3, lit...)
				}
				ga, gr := a.ActionRegexp.MatchString(strings.ToLower(qa)), a.ResourceRegexp.MatchString(strings.ToLower(qr))
				wa, wr := globMatch(act, qa), globMatch(ra.res(), qr)
				if ga != wa {
					h.fail("action", map[string]string{"pattern": act, "action": qa}, ga, wa)
				}
				if gr != wr {
					h.fail("resource", map[string]string{"pattern": ra.res(), "resource": qr}, gr, wr)
				}
				h.seen(act + "|" + qa)
				// through the check itself
				if k == 0 {
					p := &policyd{}
					g := gache.New()
					g.SetWithExpire("D:role.r", []*Assertion{a}, time.Hour)
					p.rolePolicies = &g
					_, err := p.CheckPolicyRoles(context.Background(), "D", []string{"r"}, qa, qr)
					w := ra.matches("D", qa, qr) && !ra.deny()
					if (err == nil) != w {
						h.fail("check", map[string]string{"pattern": act + " " + full, "effect": eff, "action": qa, "resource": qr}, err, w)
					}
				}
			}
		})
	}
	h.finish("random patterns over literals, wildcards and metacharacters against texts derived from them; a hand-written glob matcher decides")
}
