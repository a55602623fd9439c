package access

import (
	"crypto/x509"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/golang-jwt/jwt/v4"
)

func TestVerifC05(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 15000); i++ {
		now := time.Now().Unix()
		known := map[[2]string]bool{{"k1", ""}: true, {"k1", "https://jku"}: true, {"k2", ""}: h.chance(50), {"", ""}: h.chance(20)}
		hdr := map[string]interface{}{}
		kid, kidOK := "", false
		switch h.Intn(8) {
		case 0:
		case 1:
			hdr["kid"] = []interface{}{1, nil, true, []string{"k1"}, map[string]string{}}[h.Intn(5)]
		default:
			kid = h.pick("k1", "k1", "k1", "k2", "k3", "")
			hdr["kid"], kidOK = kid, true
		}
		jku, jkuOK := "", true
		switch h.Intn(8) {
		case 0:
			hdr["jku"], jkuOK = []interface{}{1, nil, false, []string{"https://jku"}}[h.Intn(4)], false
		case 1, 2:
			jku = h.pick("https://jku", "https://other", "")
			hdr["jku"] = jku
		}
		cl := map[string]interface{}{"sub": "user.a", "aud": "dom", "scp": []string{"r1", "r2"}, "client_id": h.pick("cid", "other", "")}
		ok := kidOK && jkuOK && known[[2]string{kid, jku}]
		switch h.Intn(9) {
		case 0:
			ok = false
		case 1:
			cl["exp"], ok = now-100, false
		case 2:
			cl["exp"], ok = 0, false
		case 3:
			cl["exp"], ok = now-2, false
		default:
			cl["exp"] = now + 3600
		}
		switch h.Intn(8) {
		case 0:
			cl["iat"], ok = now+1000, false
		case 1:
		case 2:
			cl["iat"] = 0
		default:
			cl["iat"] = now - 100
		}
		switch h.Intn(8) {
		case 0:
			cl["nbf"], ok = now+1000, false
		case 1:
			cl["nbf"] = now - 100
		}
		key := secret(kid, jku)
		what := "signed by its key"
		switch h.Intn(12) {
		case 0:
			key, what, ok = secret("k2", "x"), "signed by another key", false
		case 1:
			if jku != "" {
				key, what, ok = secret(kid, ""), "signed by the key of that ID from the default source", false
			}
		}
		tok := sign(hdr, cl, key)
		switch h.Intn(14) {
		case 0:
			tk := jwt.NewWithClaims(jwt.SigningMethodNone, jwt.MapClaims(cl))
			for k, v := range hdr {
				tk.Header[k] = v
			}
			tok, _ = tk.SignedString(jwt.UnsafeAllowNoneSignatureType)
			what, ok = "unsigned", false
		case 1:
			p := strings.Split(tok, ".")
			cl2 := map[string]interface{}{}
			for k, v := range cl {
				cl2[k] = v
			}
			cl2["sub"] = "evil"
			p[1] = strings.Split(sign(hdr, cl2, key), ".")[1]
			tok = strings.Join(p, ".")
			what, ok = "claims of another token", false
		case 2:
			tok = tok[:strings.LastIndex(tok, ".")+1]
			what, ok = "signature removed", false
		}
		enCID, enCert := h.chance(35), h.chance(35)
		ids := map[string][]string{"cn1": {"cid", "x"}, "cn2": {"other"}}
		raw := "rawcert"
		cnf := h.pick("good", "bad", "none")
		_ = cnf
		var cert *x509.Certificate
		cn := h.pick("cn1", "cn2", "cn3")
		// the certificate confirmation is part of the claims: sign again when it is wanted and the token is regular
		if enCert && what == "signed by its key" && h.chance(60) {
			cl["cnf"] = map[string]interface{}{"x5t#S256": thumb([]byte(h.pick(raw, "otherraw")))}
			tok = sign(hdr, cl, key)
		}
		if h.chance(75) {
			cert = mkCert(raw, cn, time.Now().Add(-time.Hour))
		}
		in := fmt.Sprintf("header %v claims %v %s, certificate %v cn=%s, clientID check %v, binding %v, keys %v", hdr, cl, what, cert != nil, cn, enCID, enCert, known)
		h.run(in, func() {
			want := ok
			if enCID {
				listed := false
				for _, v := range ids[cn] {
					listed = listed || v == cl["client_id"]
				}
				want = want && cert != nil && listed
			}
			if enCert {
				c, _ := cl["cnf"].(map[string]interface{})
				want = want && cert != nil && c != nil && c["x5t#S256"] == thumb([]byte(raw))
			}
			p, err := New(WithJWKProvider(keySource(known, nil)), WithEnableMTLSCertificateBoundAccessToken(enCert), WithEnableVerifyClientID(enCID), WithAuthorizedClientIDs(ids))
			if err != nil {
				h.fail("new", in, err, nil)
				return
			}
			got, err := p.ParseAndValidateOAuth2AccessToken(tok, cert)
			if (err == nil) != want {
				h.fail("acceptance", in, err, want)
				return
			}
			if err != nil {
				if got != nil {
					h.fail("claims-with-error", in, got, nil)
				}
				return
			}
			h.seen(in)
			b, _ := json.Marshal(cl)
			w := &OAuth2AccessTokenClaim{}
			json.Unmarshal(b, w)
			if !reflect.DeepEqual(got, w) {
				h.fail("claims", in, fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", w))
			}
		})
	}
	exp := time.Now().Unix() + 2
	h.run("a token that expires in 2 s, before and after", func() {
		p, _ := New(WithJWKProvider(keySource(map[[2]string]bool{{"k1", ""}: true}, nil)))
		tok := sign(map[string]interface{}{"kid": "k1"}, map[string]interface{}{"exp": exp}, secret("k1", ""))
		if _, err := p.ParseAndValidateOAuth2AccessToken(tok, nil); err != nil {
			h.fail("live", exp, err, "accepted before its expiry")
		}
		time.Sleep(time.Until(time.Unix(exp, 0)) + 1100*time.Millisecond)
		if _, err := p.ParseAndValidateOAuth2AccessToken(tok, nil); err == nil {
			h.fail("expired", exp, "accepted", "rejected after its expiry")
		}
	})
	h.finish("tokens with regular, missing, mistyped and unknown key headers, validity claims around now, wrong keys, no signature, with both checks on and off; the stated rule decides")
}
