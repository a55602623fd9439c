package access

import (
	"crypto/x509"
	"fmt"
	"net/url"
	"testing"
	"time"
)

func TestVerifC06(t *testing.T) {
	h := newVH(t)
	uris := []string{"spiffe://a/b", "spiffe://a/b?x", "spiffe://A/b", "spiffe://c/d", "spiffe:a", "https://a/b", "/rel", "spiffe://a/b%2Fc", "spiffe://a/b/"}
	base := time.Now().Unix()
	for i := 0; h.more(i, 40000); i++ {
		back := []string{"", "0s", "1h", "10s", "-5s"}[h.Intn(5)]
		off := []string{"", "0s", "1h", "10s", "1s"}[h.Intn(5)]
		backS := map[string]int64{"1h": 3600, "10s": 10, "-5s": -5}[back]
		offS := map[string]int64{"1h": 3600, "10s": 10, "1s": 1}[off]
		iat := base - 5000
		cn := h.pick("cn", "cn", "cn", "CN", "", "other")
		cid := h.pick("cn", "cn", "cn", "CN", "", "other")
		// around the borders of the window
		nb := iat - backS + []int64{-1, 0, 1, offS - 1, offS, offS + 1, offS / 2, -100000, 100000}[h.Intn(9)]
		raw := h.pick("raw1", "raw2")
		var cu []string
		for k := h.Intn(3); k > 0; k-- {
			cu = append(cu, h.pick(uris...))
		}
		cert := mkCert(raw, cn, time.Unix(nb, int64(h.Intn(2))*999999999), cu...)
		cnf := map[string]interface{}{}
		tp, hasTP := "", false
		switch h.Intn(6) {
		case 0:
		case 1:
			cnf["x5t#S256"] = []interface{}{nil, 5, true, []interface{}{thumb([]byte(raw))}}[h.Intn(4)]
		case 2:
			tp, hasTP = h.pick("", "x", thumb([]byte(raw))+"=", thumb([]byte("raw"))), true
		case 3, 4:
			tp, hasTP = thumb([]byte(h.pick("raw1", "raw2"))), true
		case 5:
			tp, hasTP = thumb([]byte("rawX")), true
		}
		if hasTP {
			cnf["x5t#S256"] = tp
		}
		listed := map[string]bool{}
		switch h.Intn(4) {
		case 0:
			cnf["proxy-principals#spiffe"] = []interface{}{nil, "spiffe://a/b", 1, map[string]interface{}{"spiffe://a/b": 1}}[h.Intn(4)]
		case 1, 2:
			l := []interface{}{}
			for k := h.Intn(4); k > 0; k-- {
				if h.chance(20) {
					l = append(l, []interface{}{nil, 1, true, []interface{}{"spiffe://a/b"}}[h.Intn(4)])
					continue
				}
				u := h.pick(uris...)
				listed[u] = true
				l = append(l, u)
			}
			cnf["proxy-principals#spiffe"] = l
		}
		claims := map[string]interface{}{"exp": base + 3600, "iat": iat, "client_id": cid}
		if h.chance(90) {
			claims["cnf"] = cnf
		} else {
			tp, hasTP, listed = "", false, map[string]bool{}
		}
		in := fmt.Sprintf("claims %v, certificate thumbprint %s cn=%q not-before=%d URIs %v, backdate %q window %q", claims, thumb([]byte(raw)), cn, nb, cu, back, off)
		h.run(in, func() {
			a := hasTP && tp == thumb([]byte(raw))
			b := hasTP && offS != 0 && cn != "" && cn == cid && nb+backS >= iat && nb+backS <= iat+offS
			c := false
			for _, u := range cu {
				p, _ := url.Parse(u)
				c = c || listed[p.String()]
			}
			want := a || b || c
			p, err := New(WithJWKProvider(keySource(map[[2]string]bool{{"k1", ""}: true}, nil)), WithEnableMTLSCertificateBoundAccessToken(true), WithClientCertificateGoBackSeconds(back), WithClientCertificateOffsetSeconds(off))
			if err != nil {
				h.fail("new", in, err, nil)
				return
			}
			tok := sign(map[string]interface{}{"kid": "k1"}, claims, secret("k1", ""))
			h.seen(fmt.Sprint(a, b, c, in))
			_, err = p.ParseAndValidateOAuth2AccessToken(tok, cert)
			if (err == nil) != want {
				h.fail("acceptance", in, err, fmt.Sprint("thumbprint ", a, ", rotation ", b, ", principals ", c))
			}
			if h.chance(10) {
				if _, err = p.ParseAndValidateOAuth2AccessToken(tok, (*x509.Certificate)(nil)); err == nil {
					h.fail("no-certificate", in, "accepted without a certificate", "rejected")
				}
			}
		})
	}
	h.finish("confirmations of every shape against certificates around the borders of the rotation window; the stated rule decides")
}
