package authorizerd

import (
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

func TestVerifC13(t *testing.T) {
	h := newVH(t)
	// any list of checks
	for i := 0; h.more(i, 10000); i++ {
		n := h.Intn(5)
		var oks []bool
		for k := 0; k < n; k++ {
			oks = append(oks, h.chance(40))
		}
		in := fmt.Sprintf("checks %v", oks)
		h.run(in, func() {
			a := &authority{}
			var asked []int
			for k := range oks {
				k := k
				a.authorizers = append(a.authorizers, func(r *http.Request, act, res string) (Principal, error) {
					asked = append(asked, k)
					if act != "A" || res != "R" {
						h.fail("arguments", in, act+res, "AR")
					}
					if oks[k] {
						return &principal{name: fmt.Sprint(k)}, nil
					}
					return &principal{name: "bad"}, errScripted
				})
			}
			first := -1
			for k, o := range oks {
				if o && first < 0 {
					first = k
				}
			}
			h.seen(in)
			r := &http.Request{}
			err := a.Verify(r, "A", "R")
			if (err == nil) != (first >= 0) || (err != nil && err != ErrInvalidCredentials) {
				h.fail("verify", in, err, first)
			}
			asked = nil
			p, err := a.Authorize(r, "A", "R")
			if first >= 0 {
				if err != nil || p == nil || p.Name() != fmt.Sprint(first) || len(asked) != first+1 {
					h.fail("authorize", in, fmt.Sprint(p, err, asked), first)
				}
			} else if err != ErrInvalidCredentials || p != nil {
				h.fail("authorize", in, fmt.Sprint(p, err), ErrInvalidCredentials)
			}
		})
	}
	// the checks that are configured
	for i := 0; h.more(i, 10000); i++ {
		rc, at, rt := h.chance(50), h.chance(50), h.chance(50)
		hdrName := h.pick("Athenz-Role-Auth", "X-Role", "Y")
		goodAT, goodRT := h.chance(50), h.chance(50)
		hasAT, hasRT := h.chance(80), h.chance(80)
		scheme := h.pick("Bearer ", "bearer ", "BEARER ", "Basic ", "")
		nCert := h.Intn(4) - 1
		query := h.pick("", "a=b", "x=%20")
		in := fmt.Sprintf("role cert %v, access token %v, role token %v; header %q; access token sent %v good %v scheme %q; role token sent %v good %v; certificates %d; query %q", rc, at, rt, hdrName, hasAT, goodAT, scheme, hasRT, goodRT, nCert, query)
		h.run(in, func() {
			var c0, got *x509.Certificate
			var gotT string
			rp := &fakeRole{f: func(tok string) (*role.Token, error) {
				gotT = tok
				if tok == "good-rt" {
					return &role.Token{Principal: "rt", Domain: "d"}, nil
				}
				return nil, errScripted
			}}
			ap := &fakeAccess{f: func(tok string, c *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
				got, gotT = c, tok
				if tok == "good-at" {
					return claim("at", "d", "c", nil, 1, 2), nil
				}
				return nil, errScripted
			}}
			var q []string
			fp := &fakePolicy{f: func(polCall) ([]string, error) { return []string{"r"}, nil }}
			a := &authority{cache: gache.New(), cacheExp: time.Minute, roleProcessor: rp, accessProcessor: ap, policyd: fp, enableRoleCert: rc, enableRoleToken: rt, roleAuthHeader: hdrName, roleCertURIPrefix: "athenz://role/"}
			a.accessTokenParam.enable = at
			a.translator = fakeTrans{func(d, m, p, qq string) (string, string, error) { q = append(q, qq); return m, p, nil }}
			err := a.initAuthorizers()
			if (err != nil) != (!rc && !at && !rt) {
				h.fail("construction", in, err, !rc && !at && !rt)
				return
			}
			if err != nil {
				return
			}
			r, _ := http.NewRequest("GET", "http://h/p?"+query, nil)
			tokAT, tokRT := "bad-at", "bad-rt"
			if goodAT {
				tokAT = "good-at"
			}
			if goodRT {
				tokRT = "good-rt"
			}
			if hasAT {
				r.Header.Set("Authorization", scheme+tokAT)
			}
			if hasRT {
				r.Header.Set(hdrName, tokRT)
			} else if h.chance(50) {
				r.Header.Set("Other-Header", tokRT)
			}
			if nCert >= 0 {
				r.TLS = &tls.ConnectionState{}
				for k := 0; k < nCert; k++ {
					r.TLS.PeerCertificates = append(r.TLS.PeerCertificates, cert("i", fmt.Sprint("s", k)))
				}
				if nCert > 0 {
					c0 = r.TLS.PeerCertificates[0]
				}
			}
			bearer := scheme == "" || strings.EqualFold(scheme, "bearer ") // the header without a scheme is the token itself
			want := ""
			if at && hasAT && goodAT && bearer {
				want = "at"
			} else if rt && hasRT && goodRT {
				want = "rt"
			}
			h.seen(in)
			p, err := a.Authorize(r, "act", "res")
			if want == "" {
				if err != ErrInvalidCredentials || p != nil {
					h.fail("refusal", in, fmt.Sprint(p, err), ErrInvalidCredentials)
				}
			} else if err != nil || p == nil || p.Name() != want {
				h.fail("acceptance", in, fmt.Sprint(p, err), want)
			}
			if want == "at" && (got != c0 || gotT != "good-at") {
				h.fail("first-certificate", in, got, c0)
			}
			if want != "" && (len(q) != 1 || q[0] != query) {
				h.fail("query", in, q, query)
			}
			a.cache.Clear()
			if err := a.Verify(r, "act", "res"); (err == nil) != (want != "") {
				h.fail("verify", in, err, want)
			}
			// without any certificate check or token no request is accepted
			if (rp.n > 0) != (rt && (want != "at" || rp.n > 0)) && rt == false {
				h.fail("not-configured", in, rp.n, "role tokens are not read")
			}
			if !at && ap.n > 0 {
				h.fail("not-configured", in, ap.n, "access tokens are not read")
			}
		})
	}
	h.finish("lists of scripted checks, and requests carrying every combination of credentials against every configuration")
}
