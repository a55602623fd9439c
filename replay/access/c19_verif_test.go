package access

import (
	"fmt"
	"reflect"
	"testing"
	"time"
)

func TestVerifC19(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 20000); i++ {
		var opts []Option
		in := ""
		fail := false
		want := atp{}
		prov := 0
		called := 0
		for n := h.Intn(7); n > 0; n-- {
			switch k := h.Intn(6); k {
			case 0:
				n := n
				opts = append(opts, WithJWKProvider(func(string, string) interface{} { called = n; return nil }))
				prov = n
				in += fmt.Sprint(" provider#", n)
			case 1:
				want.enableMTLSCertificateBoundAccessToken = h.chance(50)
				opts = append(opts, WithEnableMTLSCertificateBoundAccessToken(want.enableMTLSCertificateBoundAccessToken))
				in += fmt.Sprint(" binding=", want.enableMTLSCertificateBoundAccessToken)
			case 2:
				want.enableVerifyClientID = h.chance(50)
				opts = append(opts, WithEnableVerifyClientID(want.enableVerifyClientID))
				in += fmt.Sprint(" clientID=", want.enableVerifyClientID)
			case 3:
				want.authorizedClientIDs = map[string][]string{h.pick("a", "b"): {h.pick("x", "y")}}
				opts = append(opts, WithAuthorizedClientIDs(want.authorizedClientIDs))
				in += fmt.Sprint(" clients=", want.authorizedClientIDs)
			default:
				v := h.pick("", "1s", "90m", "2h45m", "-1s", "0s", "x", "1", "1d", "1500ms", "999ms", "2.9s")
				d, err := time.ParseDuration(v)
				if v != "" && err != nil {
					fail = true
				}
				if k == 4 {
					opts = append(opts, WithClientCertificateGoBackSeconds(v))
					if v != "" && !fail {
						want.clientCertificateGoBackSeconds = int64(d / time.Second)
					}
				} else {
					opts = append(opts, WithClientCertificateOffsetSeconds(v))
					if v != "" && !fail {
						want.clientCertificateOffsetSeconds = int64(d / time.Second)
					}
				}
				in += fmt.Sprint(" dur", k, "=", v)
			}
		}
		h.run(in, func() {
			p, err := New(opts...)
			h.seen(in)
			if (err != nil) != fail {
				h.fail("construction", in, err, fail)
				return
			}
			if fail {
				return
			}
			got := *(p.(*atp))
			called = 0
			if got.jwkp != nil {
				got.jwkp("", "")
			}
			if called != prov {
				h.fail("provider", in, called, prov)
			}
			got.jwkp = nil
			if !reflect.DeepEqual(got, want) {
				h.fail("parameters", in, fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want))
			}
		})
	}
	h.finish("random option lists against the last value given for each parameter")
}
