package authorizerd

import (
	"bytes"
	"context"
	"crypto/x509"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/kpango/glg"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

func TestVerifC20(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 60000); i++ {
		tok := h.str(8, ";s=", ".", "a", "b", ";", "s=", "=", "..", ";s", "é", "\xff", "")
		key := h.str(5, ":", "x", ";s=", ".", "")
		m := mode(h.Intn(6))
		in := fmt.Sprintf("mode %d token %q", m, tok)
		h.run(in, func() {
			got := maskToken(m, tok)
			j := -1
			switch m {
			case roleToken:
				j = strings.Index(tok, ";s=")
			case accessToken:
				j = strings.LastIndex(tok, ".")
			}
			if j > 0 {
				if got != tok[:j] {
					h.fail("masked", in, got, tok[:j])
				}
			} else if !strings.HasPrefix(got, "mask token error: ") {
				h.fail("message", in, got, "a fixed message")
			} else if got != maskToken(m, "") && (m == roleToken || m == accessToken) {
				h.fail("message", in, got, maskToken(m, ""))
			}
			if k := maskCacheKey(tok+key, tok); k != key {
				h.fail("key", in, k, key)
			}
			h.seen(in)
		})
	}
	// what reaches the debug log of an authorization
	var buf bytes.Buffer
	glg.Get().SetMode(glg.WRITER).AddWriter(&buf)
	glg.Get().SetLevel(glg.DEBG)
	for i := 0; h.more(i, 1500); i++ {
		sig := "SIGNATURE" + fmt.Sprint(h.Intn(1000))
		pre := h.pick("d=dom;p=x", "a:b%", "x", "d=;s")
		m := roleToken
		tok := pre + ";s=" + sig
		if h.chance(50) {
			m = accessToken
			tok = "hdr." + pre + "." + sig
		}
		var c *x509.Certificate
		if m == accessToken && h.chance(50) {
			c = cert("iss:uer%", "sub")
		}
		in := fmt.Sprintf("mode %d token %q certificate %v, twice", m, tok, c != nil)
		h.run(in, func() {
			buf.Reset()
			a := &authority{cache: gache.New(), cacheExp: time.Minute,
				roleProcessor: &fakeRole{f: func(string) (*role.Token, error) { return &role.Token{Principal: "p", Domain: "d"}, nil }},
				accessProcessor: &fakeAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
					return claim("p", "d", "c", nil, 1, 2), nil
				}},
				policyd: &fakePolicy{f: func(polCall) ([]string, error) { return nil, nil }}}
			a.authorize(context.Background(), m, tok, "act", "res", "", c)
			a.authorize(context.Background(), m, tok, "act", "res", "", c)
			out := buf.String()
			if strings.Contains(out, sig) {
				h.fail("logged", in, out, "no part of the signature")
			}
			h.seen(in)
		})
	}
	h.finish("random tokens and keys against the stated masks, and the debug log of whole authorizations")
}
