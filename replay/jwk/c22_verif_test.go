package jwk

import (
	"context"
	"fmt"
	"io/ioutil"
	"net/http"
	"testing"

	"github.com/kpango/glg"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	glg.Get().SetMode(glg.WRITER).AddWriter(ioutil.Discard)
	glg.Get().SetLevel(glg.DEBG)
	for i := 0; h.more(i, 6000); i++ {
		body := h.pick("null", "", "{}", "[]", "{", "1", `{"keys":null}`, `{"keys":[null]}`, `{"keys":[{}]}`, `{"keys":{}}`, `{"keys":[]}`, `{"keys":[{"kty":"oct","kid":"k1"}]}`, `{"keys":[{"kty":"RSA","kid":"k1","n":"AQ","e":"AQ"}]}`, `{"keys":[{"kty":"EC","kid":"k1","crv":"P-256","x":"AQ","y":"AQ"}]}`, `{"keys":[{"kty":"oct","k":"AQ","kid":null}]}`, `{"kty":"oct","k":"AQ","kid":"k1"}`, `{"keys":[{"kty":"OKP","kid":"k1","crv":"Ed25519","x":"AQ"}]}`, "\x00")
		st := []int{200, 200, 200, 304, 500, 0, -1}[h.Intn(7)]
		in := fmt.Sprintf("status %d body %q", st, body)
		h.run(in, func() {
			d, err := New(WithAthenzJwksURL("h"), WithURLs([]string{"https://u1"}))
			if err != nil {
				return
			}
			d.(*jwkd).client = &http.Client{Transport: rtFunc(func(*http.Request) (*http.Response, error) {
				if h.chance(5) {
					return nil, errScripted
				}
				return mkResp(st, body), nil
			})}
			for k := 0; k < 2; k++ {
				d.Update(context.Background())
				for _, u := range []string{"", "https://u1", "x", "\xff"} {
					for _, id := range []string{"k1", "", "\xff"} {
						d.GetProvider()(id, u)
					}
				}
			}
			h.seen(in)
		})
	}
	h.finish("key set bodies with missing, null and mistyped parts and all statuses; any panic is a failure")
}
