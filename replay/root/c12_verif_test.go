package authorizerd

import (
	"context"
	"crypto/x509"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

func TestVerifC12(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 30000); i++ {
		useRole := h.chance(50)
		polOn := h.chance(80)
		transKind := h.Intn(4) // 0, 1 none; 2 translates; 3 fails
		prefix := h.pick("", "", "/pre", "x:")
		okTok, okPol := h.chance(80), h.chance(75)
		tok, act, res, query := h.pick("tok1", "tok2"), h.pick("get", "post", ""), h.pick("/a", "/b/c", ""), h.pick("", "q=1")
		if h.chance(80) {
			act, res = h.pick("get", "post"), h.pick("/a", "/b/c")
		}
		dom, roles, name, cid := h.pick("d1", "d2", ""), [][]string{{"r1"}, {"r1", "r2"}, {}, nil}[h.Intn(4)], h.pick("user.a", "user.b"), h.pick("cid", "")
		iat, exp := time.Now().Unix()-int64(h.Intn(100)), time.Now().Unix()+int64(h.Intn(100))
		authz := [][]string{{"r1"}, {"r2"}, {"r1", "r2"}}[h.Intn(3)]
		var c *x509.Certificate
		if h.chance(50) {
			c = cert("i", "s")
		}
		in := fmt.Sprintf("role token %v, policies %v, translator %d, prefix %q, token ok %v, policy ok %v, request %q %q %q %q, certificate %v, domain %q roles %q", useRole, polOn, transKind, prefix, okTok, okPol, tok, act, res, query, c != nil, dom, roles)
		h.run(in, func() {
			var gotTok string
			var gotCert *x509.Certificate
			rp := &fakeRole{f: func(tk string) (*role.Token, error) {
				gotTok = tk
				if !okTok {
					return nil, errScripted
				}
				return &role.Token{Domain: dom, Roles: roles, Principal: name, TimeStamp: time.Unix(iat, 0), ExpiryTime: time.Unix(exp, 0)}, nil
			}}
			ap := &fakeAccess{f: func(tk string, cc *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
				gotTok, gotCert = tk, cc
				if !okTok {
					return nil, errScripted
				}
				return claim(name, dom, cid, roles, iat, exp), nil
			}}
			fp := &fakePolicy{f: func(polCall) ([]string, error) {
				if !okPol {
					return nil, errScripted
				}
				return authz, nil
			}}
			a := &authority{cache: gache.New(), cacheExp: time.Minute, disablePolicyd: !polOn, roleProcessor: rp, accessProcessor: ap, policyd: fp, resourcePrefix: prefix}
			var trCalls []string
			if transKind >= 2 {
				a.translator = fakeTrans{func(d, m, p, q string) (string, string, error) {
					trCalls = append(trCalls, fmt.Sprintf("%q", []string{d, m, p, q}))
					if transKind == 3 {
						return m, p, errScripted
					}
					return "T" + m, "T" + p, nil
				}}
			}
			var p Principal
			var err error
			var verr error
			if useRole {
				p, err = a.authorize(context.Background(), roleToken, tok, act, res, query, nil)
			} else {
				p, err = a.authorize(context.Background(), accessToken, tok, act, res, query, c)
			}
			want := okTok
			if polOn {
				want = want && act != "" && res != "" && transKind != 3 && okPol
			}
			h.seen(in)
			if (err == nil) != want {
				h.fail("acceptance", in, err, want)
				return
			}
			if err != nil {
				if p != nil {
					h.fail("principal-with-error", in, p, nil)
				}
			} else {
				if p == nil {
					h.fail("no-principal", in, p, "a principal")
					return
				}
				if gotTok != tok || (!useRole && gotCert != c) || (useRole && rp.n != 1) || (!useRole && ap.n != 1) {
					h.fail("processor", in, fmt.Sprint(gotTok, gotCert, rp.n, ap.n), tok)
				}
				var wa []string
				if polOn {
					wa = authz
				}
				if p.Name() != name || p.Domain() != dom || !reflect.DeepEqual(p.Roles(), roles) || p.IssueTime() != iat || p.ExpiryTime() != exp || !reflect.DeepEqual(p.AuthorizedRoles(), wa) {
					h.fail("principal", in, fmt.Sprintf("%+v", p), fmt.Sprint(name, dom, roles, iat, exp, wa))
				}
				o, isO := p.(OAuthAccessToken)
				if isO == useRole || (isO && o.ClientID() != cid) {
					h.fail("client-id", in, fmt.Sprintf("%+v", p), cid)
				}
				if polOn {
					wAct, wRes := act, res
					if transKind == 2 {
						if len(trCalls) != 1 || trCalls[0] != fmt.Sprintf("%q", []string{dom, act, res, query}) {
							h.fail("translate", in, trCalls, "the token's domain and the request")
						}
						wAct, wRes = "T"+act, "T"+res
					}
					wRes = prefix + wRes
					if len(fp.calls) != 1 || fp.calls[0].Dom != dom || fmt.Sprintf("%q", fp.calls[0].Roles) != fmt.Sprintf("%q", append([]string{}, roles...)) || fp.calls[0].Act != wAct || fp.calls[0].Res != wRes {
						h.fail("policy-check", in, fmt.Sprintf("%q", fp.calls), fmt.Sprint(dom, roles, wAct, wRes))
					}
				}
				// the same answer again, now from the cache
				p2, err2 := a.authorize(context.Background(), map[bool]mode{true: roleToken, false: accessToken}[useRole], tok, act, res, query, map[bool]*x509.Certificate{true: nil, false: c}[useRole])
				if err2 != nil || !reflect.DeepEqual(p2, p) {
					h.fail("again", in, fmt.Sprint(p2, err2), p)
				}
			}
			if polOn && !okTok && len(fp.calls) > 0 {
				h.fail("order", in, "policy checked for a rejected token", "not")
			}
			// the entry points without a query
			b := *a
			b.cache = gache.New()
			want = okTok && (!polOn || (act != "" && res != "" && transKind != 3 && okPol))
			if useRole {
				p, err = b.AuthorizeRoleToken(context.Background(), tok, act, res)
				b.cache = gache.New()
				verr = b.VerifyRoleToken(context.Background(), tok, act, res)
			} else {
				p, err = b.AuthorizeAccessToken(context.Background(), tok, act, res, c)
				if err == nil && gotCert != c {
					h.fail("entry-certificate", in, gotCert, c)
				}
				b.cache = gache.New()
				verr = b.VerifyAccessToken(context.Background(), tok, act, res, c)
			}
			if (err == nil) != want || (p != nil) != want || (verr == nil) != want {
				h.fail("entry-points", in, fmt.Sprint(p, err, verr), want)
			}
		})
	}
	h.finish("scripted processors, translator and policy; the arguments they get and the principal are compared with the stated rule")
}
