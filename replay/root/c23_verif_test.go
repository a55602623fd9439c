package authorizerd

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestVerifC23(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 6000); i++ {
		disPub, disPol, disJwk := h.chance(25), h.chance(25), h.chance(25)
		ePub, ePol, eJwk := h.chance(25), h.chance(25), h.chance(25)
		dPub, dPol, dJwk := h.Intn(3), h.Intn(3), h.Intn(3)
		cancelled := h.chance(10)
		in := fmt.Sprintf("disabled pubkey %v policy %v jwk %v; failing pubkey %v policy %v jwk %v; delays %d %d %d; cancelled %v", disPub, disPol, disJwk, ePub, ePol, eJwk, dPub, dPol, dJwk, cancelled)
		h.run(in, func() {
			var mu sync.Mutex
			calls := map[string]int{}
			pubDone, polBefore := false, false
			mk := func(name string, fail bool, d int) func(context.Context) error {
				return func(ctx context.Context) error {
					mu.Lock()
					calls[name]++
					if name == "pol" && !disPub && !pubDone {
						polBefore = true
					}
					mu.Unlock()
					time.Sleep(time.Duration(d) * 100 * time.Microsecond)
					if fail {
						return errScripted
					}
					mu.Lock()
					if name == "pub" {
						pubDone = true
					}
					mu.Unlock()
					return nil
				}
			}
			a := &authority{disablePubkeyd: disPub, disablePolicyd: disPol, disableJwkd: disJwk}
			// disabled daemons are there as well: they must not be touched
			a.pubkeyd = &fakePub{mk("pub", ePub, dPub)}
			a.policyd = &fakePolicy{update: mk("pol", ePol, dPol)}
			a.jwkd = &fakeJwk{mk("jwk", eJwk, dJwk)}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if cancelled {
				cancel()
			}
			err := a.Init(ctx)
			mu.Lock()
			defer mu.Unlock()
			h.seen(in)
			fail := cancelled || (!disPub && ePub) || (!disPol && ePol && (disPub || !ePub)) || (!disJwk && eJwk)
			if (err != nil) != fail {
				h.fail("result", in, err, fail)
			}
			if polBefore {
				h.fail("order", in, "policies fetched before the public keys were updated", "after")
			}
			for n, d := range map[string]bool{"pub": disPub, "pol": disPol, "jwk": disJwk} {
				if d && calls[n] > 0 {
					h.fail("disabled", in, n+" updated", "not touched")
				}
				if !d && err == nil && calls[n] != 1 {
					h.fail("updated", in, fmt.Sprint(n, " ", calls[n]), "once")
				}
			}
			if !disPub && ePub && calls["pol"] > 0 {
				h.fail("policy-without-keys", in, "policies fetched", "not without keys")
			}
		})
	}
	h.finish("every combination of disabled, failing and slow daemons and a cancelled context")
}
