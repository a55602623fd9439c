package authorizerd

import (
	"context"
	"crypto/x509"
	"fmt"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/pkg/errors"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

func TestVerifC11(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 6000); i++ {
		parts := []string{"a", ":", "%", "3A", "%3A", "%25", "b", "::", "\x00", "A", " ", "é", "\xff", "|"}
		if h.chance(50) {
			parts = []string{"a", ":"}
		}
		s := func() string { return h.str(3, parts...) }
		polOn, trans := h.chance(75), h.chance(50)
		exp := time.Duration(1+h.Intn(100)) * time.Minute
		type rq struct {
			m                            mode
			tok, act, res, query, is, su string
			cert                         bool
		}
		var reqs []rq
		base := rq{tok: s(), act: s(), res: s(), query: s(), is: s(), su: s(), cert: h.chance(60), m: roleToken}
		for k := 0; k < 14; k++ {
			r := base
			switch h.Intn(10) {
			case 0:
				r.tok = s()
			case 1:
				r.act = s()
			case 2:
				r.res = s()
			case 3:
				r.query = s()
			case 4:
				r.is = s()
			case 5:
				r.su = s()
			case 6:
				r.cert = !r.cert
			case 7: // the same characters, distributed differently
				a := r.act + ":" + r.res
				j := h.Intn(len(a) + 1)
				r.act, r.res = a[:j], a[j:]
				if len(r.res) > 0 && r.res[0] == ':' {
					r.res = r.res[1:]
				}
			case 8:
				r.tok = r.tok + ":" + r.is
				r.cert = false
				r.act, r.res = r.su, r.act+":"+r.res
			case 9:
				if h.chance(50) {
					r.res, r.query = r.res+":"+r.query, ""
				} else {
					r.tok, r.act, r.res, r.query, r.is, r.su = s(), s(), s(), s(), s(), s()
				}
			}
			if r.cert || h.chance(30) {
				r.m = accessToken
			}
			reqs = append(reqs, r)
			if h.chance(20) {
				reqs = append(reqs, r)
			}
		}
		in := fmt.Sprintf("policies %v translator %v requests %+q", polOn, trans, reqs)
		h.run(in, func() {
			rc := &recCache{Gache: gache.New()}
			okTok := true
			okPol := true
			denyRate := 35
			rp := &fakeRole{f: func(tok string) (*role.Token, error) {
				if !okTok {
					return nil, errScripted
				}
				return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: tok}, nil
			}}
			ap := &fakeAccess{f: func(tok string, c *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
				if !okTok {
					return nil, errScripted
				}
				return claim(tok, "d", "c", []string{"r"}, 1, 2), nil
			}}
			fp := &fakePolicy{f: func(polCall) ([]string, error) {
				if !okPol {
					return nil, errScripted
				}
				return []string{"r"}, nil
			}}
			a := &authority{cache: rc, cacheExp: exp, disablePolicyd: !polOn, roleProcessor: rp, accessProcessor: ap, policyd: fp}
			if trans {
				a.translator = fakeTrans{func(d, m, p, q string) (string, string, error) { return m, p, nil }}
			}
			// what a request is identified by
			ident := func(r rq) string {
				x := fmt.Sprintf("%q", r.tok)
				if r.cert {
					x += fmt.Sprintf(" cert %q %q", r.is, r.su)
				}
				if polOn {
					x += fmt.Sprintf(" policy %q %q", r.act, r.res)
					if trans {
						x += fmt.Sprintf(" query %q", r.query)
					}
				}
				return x
			}
			granted := map[string]bool{}
			for _, r := range reqs {
				okTok, okPol = !h.chance(denyRate/2), !h.chance(denyRate/2)
				var c *x509.Certificate
				if r.cert {
					c = cert(r.is, r.su)
				}
				n0, p0, g0 := rp.n+ap.n, len(rc.puts), rc.gets
				p, err := a.authorize(context.Background(), r.m, r.tok, r.act, r.res, r.query, c)
				cached := rp.n+ap.n == n0
				if polOn && (r.act == "" || r.res == "") {
					if err == nil || errors.Cause(err) != ErrInvalidParameters {
						h.fail("empty-parameters", in, err, "rejected")
					}
					if rc.gets != g0 {
						h.fail("cache-before-parameters", in, "cache consulted", "rejected before")
					}
					continue
				}
				if err == nil && cached && !granted[ident(r)] {
					h.fail("other-request", in, fmt.Sprintf("%+q answered from the cache", r), "only for requests authorized before: "+fmt.Sprint(granted))
					return
				}
				if err == nil && p.Name() != r.tok {
					h.fail("other-principal", in, p.Name(), r.tok)
				}
				if err == nil && !cached {
					if !okTok || (polOn && !okPol) {
						h.fail("granted", in, "granted", "refused")
					}
					granted[ident(r)] = true
					if len(rc.puts) != p0+1 || rc.puts[p0].exp != exp {
						h.fail("stored", in, fmt.Sprintf("%+v", rc.puts[p0:]), exp)
					}
					h.seen(ident(r))
				}
				if err != nil && len(rc.puts) != p0 {
					h.fail("failure-stored", in, r, "nothing stored")
				}
			}
		})
	}
	h.finish("sequences of requests that differ in single components or in how the same characters are distributed over them; an answer that does not reach the token processor must be of an equal request")
}
