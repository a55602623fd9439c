package role

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

type fakeVer struct{ f func(in, sig string) error }

func (v fakeVer) Verify(in, sig string) error { return v.f(in, sig) }

func TestVerifC04(t *testing.T) {
	h := newVH(t)
	now := time.Now().Unix()
	num := func() string {
		return h.pick(fmt.Sprint(now+3600), fmt.Sprint(now+3600), fmt.Sprint(now+3600), fmt.Sprint(now-3600), "0", "-1", "x", "", "1e9", fmt.Sprint(now+7200), " 5", "0x7fffffff", "99999999999999999999", "4102444800.5", "+4102444800", "4_102_444_800", "9223372036", "253402300799")
	}
	field := func() string {
		switch h.Intn(14) {
		case 0, 1:
			return "d=" + h.pick("dom", "dom2", "", "a=b", "x;y")
		case 2, 3:
			return "r=" + h.pick("r1", "r1,r2", "", ",", "a,,b", "r=1")
		case 4, 5:
			return "p=" + h.pick("user.x", "", "p=q")
		case 6, 7:
			return "k=" + h.pick("0", "1", "nokey", "")
		case 8:
			return "e=" + num()
		case 9:
			return "t=" + num()
		case 10:
			return h.pick("v=Z1", "h=host", "a=salt", "i=1.2.3.4", "proxy=x", "D=dom", "=x", "s=abc", "E=1", " e=1", "s=")
		case 11:
			return h.pick("novalue", "", "d", "e", "=")
		case 12:
			return "s" + h.pick("=zzz", "", "s=1")
		}
		return "e=" + fmt.Sprint(now+3600)
	}
	for i := 0; h.more(i, 40000); i++ {
		var fs []string
		if h.chance(85) {
			fs = append(fs, "v=Z1", "d=dom", "r=r1,r2", "p=user.x", "k=0", "t="+fmt.Sprint(now-10), "e="+fmt.Sprint(now+3600))
			for k := h.Intn(3); k > 0; k-- {
				j := h.Intn(len(fs) + 1)
				fs = append(fs[:j], append([]string{field()}, fs[j:]...)...)
			}
			if h.chance(30) {
				j := h.Intn(len(fs))
				fs = append(fs[:j], fs[j+1:]...)
			}
		} else {
			for k := h.Intn(5); k > 0; k-- {
				fs = append(fs, field())
			}
		}
		if h.chance(10) {
			h.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
		}
		text := strings.Join(fs, ";")
		tok := text
		sigkind := h.Intn(12)
		sigtext := text
		if j := strings.Index(text+";s=", ";s="); j < len(text) {
			sigtext = text[:j]
		}
		kid, _ := "", 0
		dom, prin := "", ""
		var roles []string
		exp, iat := int64(0), int64(0)
		hasExp, bad := false, false
		for _, p := range strings.Split(sigtext, ";") {
			j := strings.Index(p, "=")
			if j < 0 {
				bad = true
				continue
			}
			v := p[j+1:]
			switch p[:j] {
			case "d":
				dom = v
			case "k":
				kid = v
			case "p":
				prin = v
			case "r":
				roles = strings.Split(v, ",")
			case "e", "t":
				n, err := strconv.ParseInt(v, 10, 64)
				if err != nil {
					bad = true
				} else if p[0] == 'e' {
					exp, hasExp = n, true
				} else {
					iat = n
				}
			}
		}
		sig := func(text, id string) string { return fmt.Sprintf("%x_%s", text, id) }
		s := sig(sigtext, kid)
		switch sigkind {
		case 0:
			s = ""
		case 1:
			s = sig(sigtext+";", kid)
		case 2:
			s = s + ";s=" + s
		case 3:
			s = s + ";e=" + fmt.Sprint(now+3600)
		}
		if sigkind != 4 {
			tok = text + ";s=" + s
		}
		if sigkind == 5 {
			tok = text + ";S=" + s
		}
		known := map[string]bool{"0": true, "1": true}
		accept := false
		if j := strings.Index(tok, ";s="); j >= 0 && !bad {
			accept = hasExp && exp > time.Now().Unix() && known[kid] && tok[j+3:] == sig(tok[:j], kid) && tok[:j] == sigtext
		}
		in := fmt.Sprintf("%q", tok)
		h.run(in, func() {
			var askedEnv pubkey.AthenzEnv
			var askedID string
			var verified [][2]string
			pkp := pubkey.Provider(func(env pubkey.AthenzEnv, id string) authcore.Verifier {
				askedEnv, askedID = env, id
				if env != pubkey.EnvZTS || !known[id] {
					return nil
				}
				return fakeVer{func(in, sg string) error {
					verified = append(verified, [2]string{in, sg})
					if sg != sig(in, id) {
						return errors.New("bad signature")
					}
					return nil
				}}
			})
			p, err := New(WithPubkeyProvider(pkp))
			if err != nil {
				h.fail("new", in, err, nil)
				return
			}
			rt, err := p.ParseAndValidateRoleToken(tok)
			if (err == nil) != accept {
				h.fail("acceptance", in, fmt.Sprint(err, " asked ", askedEnv, askedID), accept)
				return
			}
			if err != nil {
				if rt != nil {
					h.fail("token-with-error", in, rt, nil)
				}
				return
			}
			h.seen(in)
			if rt.Domain != dom || rt.Principal != prin || rt.KeyID != kid || rt.ExpiryTime.Unix() != exp || fmt.Sprintf("%q", rt.Roles) != fmt.Sprintf("%q", roles) || (iat != 0 && rt.TimeStamp.Unix() != iat) {
				h.fail("fields", in, fmt.Sprintf("%+v", *rt), fmt.Sprint(dom, prin, kid, exp, roles, iat))
			}
			j := strings.Index(tok, ";s=")
			if len(verified) == 0 || verified[0] != [2]string{tok[:j], tok[j+3:]} {
				h.fail("verified-text", in, verified, tok[:j])
			}
		})
	}
	// time passes
	exp := time.Now().Unix() + 2
	text := fmt.Sprintf("d=dom;r=r;p=p;k=0;e=%d", exp)
	tok := text + ";s=sig"
	pkp := pubkey.Provider(func(pubkey.AthenzEnv, string) authcore.Verifier {
		return fakeVer{func(in, sg string) error { return nil }}
	})
	h.run("a token that expires in 2 s, before and after", func() {
		p, _ := New(WithPubkeyProvider(pkp))
		if _, err := p.ParseAndValidateRoleToken(tok); err != nil {
			h.fail("live", tok, err, "accepted before its expiry")
		}
		time.Sleep(time.Until(time.Unix(exp, 0)) + 400*time.Millisecond)
		if _, err := p.ParseAndValidateRoleToken(tok); err == nil {
			h.fail("expired", tok, "accepted", "rejected after its expiry")
		}
	})
	h.finish("tokens assembled from regular, repeated, missing and malformed fields with right and wrong signatures; a direct parse decides")
}
