package pubkey

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"testing"

	"github.com/kpango/glg"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	glg.Get().SetMode(glg.WRITER).AddWriter(ioutil.Discard)
	glg.Get().SetLevel(glg.DEBG)
	ks := mkKeys(1)
	for i := 0; h.more(i, 6000); i++ {
		b1, b2 := "", ""
		gen := func() string {
			if h.chance(30) {
				return h.pick("null", "", "{}", "[]", "{", "1", `{"publicKeys":null}`, `{"publicKeys":[null]}`, `{"publicKeys":[{}]}`, `{"publicKeys":{}}`, `{"publicKeys":[{"id":null,"key":null}]}`, "\x00")
			}
			var l []interface{}
			for k := h.Intn(3); k > 0; k-- {
				l = append(l, []interface{}{nil, map[string]interface{}{"id": h.pick("0", "", "\x00"), "key": h.pick(ks[0].pub, "", "QUJD", "%%", "\xff", "LS0tLS1CRUdJTiBQVUJMSUMgS0VZLS0tLS0K")}, 1, "x"}[h.Intn(4)])
			}
			b, _ := json.Marshal(map[string]interface{}{"publicKeys": l})
			return string(b)
		}
		b1, b2 = gen(), gen()
		st := []int{200, 200, 200, 304, 500, 0, -1, 302}[h.Intn(8)]
		st2 := []int{200, 304, 304, 500}[h.Intn(4)]
		etag := h.pick("", "e")
		in := fmt.Sprintf("status %d body %q ETag %q then status %d body %q", st, b1, etag, st2, b2)
		h.run(in, func() {
			d, err := New(WithAthenzURL("h"))
			if err != nil {
				return
			}
			p := d.(*pubkeyd)
			n := 0
			p.client = &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
				if n++; n > 2 {
					return mkResp(st2, b2, etag), nil
				}
				return mkResp(st, b1, etag), nil
			}), CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
			for k := 0; k < 3; k++ {
				d.Update(context.Background())
				for _, e := range []AthenzEnv{EnvZMS, EnvZTS, "", "x"} {
					if v := d.GetProvider()(e, h.pick("0", "", "zz")); v != nil {
						v.Verify("x", h.pick("", "x", "\xff"))
					}
				}
			}
			h.seen(in)
		})
	}
	h.finish("key set bodies with missing, null and mistyped parts, all statuses and unasked 304 answers; any panic is a failure")
}
