package policy

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestVerifC09(t *testing.T) {
	h := newVH(t)
	const slack = 300 * time.Millisecond // the library clock ticks
	offs := []time.Duration{-time.Hour, -time.Second, -24 * 365 * time.Hour, -time.Minute, 600 * time.Millisecond, 1300 * time.Millisecond, 2700 * time.Millisecond, 59500 * time.Millisecond, time.Minute, 90 * time.Minute, 3 * time.Hour, 25 * time.Hour, 24 * 400 * time.Hour}
	for i := 0; h.more(i, 3000); i++ {
		off := offs[h.Intn(len(offs))]
		if h.chance(30) {
			off = time.Duration(h.Int63n(int64(48*time.Hour))) - 24*time.Hour
			if off > -slack && off <= slack {
				off = -time.Second
			}
		}
		var p []rawAss
		for k := 1 + h.Intn(4); k > 0; k-- {
			p = append(p, rawAss{"d:role." + h.pick("r", "s"), h.pick("a", "b", "c"), "d:" + h.pick("x", "y"), h.pick("allow", "deny")})
		}
		remembered := h.chance(50)
		prev := h.chance(30)
		in := fmt.Sprintf("expiry in %v, assertions %v, remembered=%v", off, p, remembered)
		h.run(in, func() {
			rg := &recGache{Gache: gache.New()}
			if prev { // an earlier load of the same roles
				fetchAndCachePolicy(context.Background(), rg.Gache, &fakeFetcher{"d", func(context.Context) (*SignedPolicy, error) {
					return mkSP("d", time.Now().Add(10*time.Minute), []rawAss{{"d:role.r", "z", "d:z", "allow"}}), nil
				}})
			}
			exp := time.Now().Add(off)
			sp := mkSP("d", exp, p)
			f := &fakeFetcher{"d", func(context.Context) (*SignedPolicy, error) {
				if remembered {
					return sp, errScripted
				}
				return sp, nil
			}}
			var err error
			if h.chance(50) {
				pd := &policyd{fetchers: map[string]Fetcher{"d": f}, purgePeriod: time.Hour}
				old := gache.New()
				pd.rolePolicies = &old
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				if err = pd.Update(ctx); err == nil && off < 0 {
					if m := (*pd.rolePolicies).ToRawMap(context.Background()); len(m) != 0 {
						h.fail("expired-table", in, m, "no entry")
					}
					_, e := pd.CheckPolicyRoles(context.Background(), "d", []string{"r", "s"}, p[0].Action, p[0].res())
					if e == nil {
						h.fail("expired-authorizes", in, "allowed", "refused")
					}
				}
				(*pd.rolePolicies).Stop()
			}
			err = fetchAndCachePolicy(context.Background(), rg, f)
			_ = err
			h.seen(in)
			for _, put := range rg.puts {
				if put.TTL <= 0 {
					h.fail("lifetime", in, put, "a positive lifetime")
					continue
				}
				left := exp.Sub(put.At)
				if d := put.TTL - left; d > slack || d < -slack {
					h.fail("remaining", in, put.TTL, left)
				}
			}
			if off < 0 && len(rg.puts) > 0 {
				h.fail("expired-stored", in, rg.puts, "nothing stored")
			}
		})
	}
	// real time: an entry is not consulted after the expiry date
	in := "expiry in 1.2 s, consulted before and after"
	h.run(in, func() {
		pd := &policyd{}
		g := gache.New()
		pd.rolePolicies = &g
		exp := time.Now().Add(1200 * time.Millisecond)
		fetchAndCachePolicy(context.Background(), g, &fakeFetcher{"d", func(context.Context) (*SignedPolicy, error) {
			return mkSP("d", exp, []rawAss{{"d:role.r", "a", "d:x", "allow"}}), nil
		}})
		if _, err := pd.CheckPolicyRoles(context.Background(), "d", []string{"r"}, "a", "x"); err != nil && time.Now().Before(exp.Add(-slack)) {
			h.fail("live", in, err, "allowed before the expiry")
		}
		time.Sleep(time.Until(exp) + slack)
		if _, err := pd.CheckPolicyRoles(context.Background(), "d", []string{"r"}, "a", "x"); err == nil {
			h.fail("after-expiry", in, "allowed", "refused after the expiry")
		}
	})
	h.finish("expiry dates around and far from now, fresh and remembered data; the lifetime given to the cache is compared with the time left")
}
