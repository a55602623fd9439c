package access

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"testing"
	"time"
)

func TestVerifC07(t *testing.T) {
	h := newVH(t)
	ns := []string{"a", "A", "b", "", "*", "a ", "ab", "a,b"}
	for i := 0; h.more(i, 30000); i++ {
		ids := map[string][]string{}
		for k := h.Intn(4); k > 0; k-- {
			l := []string{}
			for m := h.Intn(4); m > 0; m-- {
				l = append(l, h.pick(ns...))
			}
			ids[h.pick(ns...)] = l
		}
		if h.chance(5) {
			ids = nil
		}
		cn, cid := h.pick(ns...), h.pick(ns...)
		var cert *x509.Certificate
		if h.chance(90) {
			cert = &x509.Certificate{Subject: pkix.Name{CommonName: cn}, Issuer: pkix.Name{CommonName: h.pick(ns...)}, DNSNames: []string{h.pick(ns...)}}
		}
		cl := map[string]interface{}{"exp": time.Now().Unix() + 3600, "client_id": cid, "sub": h.pick(ns...), "uid": h.pick(ns...)}
		if h.chance(10) {
			delete(cl, "client_id")
			cid = ""
		}
		in := fmt.Sprintf("listed %q, certificate %v cn=%q, client ID %q", ids, cert != nil, cn, cid)
		h.run(in, func() {
			want := false
			if cert != nil {
				for _, v := range ids[cn] {
					want = want || v == cid
				}
			}
			h.seen(in)
			p, err := New(WithJWKProvider(keySource(map[[2]string]bool{{"k1", ""}: true}, nil)), WithEnableVerifyClientID(true), WithAuthorizedClientIDs(ids))
			if err != nil {
				h.fail("new", in, err, nil)
				return
			}
			tok := sign(map[string]interface{}{"kid": "k1"}, cl, secret("k1", ""))
			if _, err = p.ParseAndValidateOAuth2AccessToken(tok, cert); (err == nil) != want {
				h.fail("acceptance", in, err, want)
			}
		})
	}
	h.finish("random client lists, names and client IDs; membership in the list of the common name decides")
}
