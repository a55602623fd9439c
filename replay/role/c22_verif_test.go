package role

import (
	"fmt"
	"testing"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

type okVer struct{}

func (okVer) Verify(in, sig string) error { return nil }

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 60000); i++ {
		tok := h.str(10, ";s=", ";", "=", "e=", "t=", "d=", "r=", "k=", "p=", "s=", "1", "x", ",", "\x00", "\xff", "99999999999", ";s", "")
		prov := i % 3
		h.run(fmt.Sprintf("%q provider %d", tok, prov), func() {
			var pkp pubkey.Provider
			if prov > 0 {
				pkp = func(pubkey.AthenzEnv, string) authcore.Verifier {
					if prov == 1 {
						return nil
					}
					return okVer{}
				}
			}
			p, err := New(WithPubkeyProvider(pkp))
			if err != nil {
				return
			}
			rt, err := p.ParseAndValidateRoleToken(tok)
			if err == nil && rt == nil {
				h.fail("nil", tok, "no token and no error", "a token or an error")
			}
			h.seen(tok)
		})
	}
	h.finish("random token texts; any panic is a failure")
}
