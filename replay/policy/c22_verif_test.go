package policy

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/kpango/gache"
	"github.com/kpango/glg"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"io/ioutil"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	glg.Get().SetMode(glg.WRITER).AddWriter(ioutil.Discard) // debug closures run as well
	glg.Get().SetLevel(glg.DEBG)
	pkp := pubkey.Provider(func(pubkey.AthenzEnv, string) authcore.Verifier {
		return okVerifier{func(string, string) error { return nil }}
	})
	mutate := func(v interface{}) interface{} { return v }
	var walk func(v interface{}, p int) interface{}
	junk := func() interface{} {
		return []interface{}{nil, "", "x", 1.5, true, []interface{}{}, map[string]interface{}{}, []interface{}{nil}, "2100-01-01T00:00:00.000Z"}[h.Intn(9)]
	}
	walk = func(v interface{}, p int) interface{} {
		if h.chance(p) {
			return junk()
		}
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range []string{"signedPolicyData", "policyData", "expires", "modified", "policies", "assertions", "keyId", "signature", "zmsKeyId", "zmsSignature", "role", "action", "resource", "effect", "domain", "name"} {
				if c, ok := x[k]; ok {
					if h.chance(p / 2) {
						delete(x, k)
						continue
					}
					x[k] = walk(c, p)
				}
			}
		case []interface{}:
			for i := range x {
				x[i] = walk(x[i], p)
			}
		}
		return v
	}
	_ = mutate
	for i := 0; h.more(i, 6000); i++ {
		body := ""
		if h.chance(10) {
			body = h.pick("null", "", "{}", "[]", "{", "1", "\"\"", "nul", "{\"signedPolicyData\":null}", "{\"signedPolicyData\":{}}", "{\"signedPolicyData\":{\"expires\":null}}", "\x00", "{\"signedPolicyData\":{\"expires\":\"x\"}}")
		} else {
			sp := mkSP("d", time.Now().Add(time.Duration(h.Intn(3)-1)*time.Hour+time.Minute), []rawAss{{"d:role.r", "a", "d:r", "allow"}, {"d:role.r", "a", h.pick("d:r", "dr", ""), "deny"}}, []rawAss{})
			b, _ := json.Marshal(sp)
			var v interface{}
			json.Unmarshal(b, &v)
			v = walk(v, []int{0, 3, 8, 15}[h.Intn(4)])
			b, _ = json.Marshal(v)
			body = string(b)
		}
		status := []int{200, 200, 200, 304, 500, 204, 302, 0, -1, 999}[h.Intn(10)]
		etag := h.pick("", "e", "\"x\"", "W/")
		second := []int{304, 200, 500}[h.Intn(3)]
		provider := h.Intn(4)
		in := fmt.Sprintf("status %d then %d, ETag %q, body %s, provider %d", status, second, etag, body, provider)
		h.run(in, func() {
			pk := pkp
			switch provider {
			case 0:
				pk = nil
			case 1:
				pk = func(pubkey.AthenzEnv, string) authcore.Verifier { return nil }
			}
			d, err := New(WithAthenzDomains("d"), WithPubKeyProvider(pk), WithRetryDelay("1ns"), WithRetryAttempts(-1+h.Intn(3)))
			if err != nil {
				return
			}
			p := d.(*policyd)
			f := p.fetchers["d"].(*fetcher)
			st := status
			f.client = &http.Client{Transport: rtFunc(func(*http.Request) (*http.Response, error) {
				r := mkResp(st, body, etag)
				st = second
				if h.chance(5) {
					return nil, errScripted
				}
				if h.chance(5) {
					r.Body = nil
				}
				return r, nil
			}), CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
			f.Fetch(context.Background())
			f.FetchWithRetry(context.Background())
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			p.Update(ctx)
			p.Update(ctx)
			p.CheckPolicyRoles(ctx, "d", []string{"r", ""}, "a", "r")
			p.GetPolicyCache(ctx)
			h.seen(body)
			// loading without verification in between: data with missing parts
			var sp *SignedPolicy
			if json.Unmarshal([]byte(body), &sp) == nil && sp != nil {
				sp.Verify(pkp)
				if sp.SignedPolicyData != nil && sp.SignedPolicyData.Expires != nil {
					simplifyAndCachePolicy(ctx, gache.New(), sp)
				}
			}
			// the hook of expired entries, for known and unknown domains
			rg := gache.New()
			cur := p.rolePolicies
			_ = rg
			if cur != nil {
				g := *cur
				g.SetWithExpire("unknown:role.r", []*Assertion{}, time.Nanosecond)
				g.SetWithExpire("d:role.r", []*Assertion{}, time.Nanosecond)
				g.SetWithExpire("", []*Assertion{}, time.Nanosecond)
				time.Sleep(2 * time.Microsecond)
				if h.chance(3) {
					time.Sleep(5 * time.Millisecond)
				}
				g.DeleteExpired(ctx)
				if h.chance(3) {
					time.Sleep(3 * time.Millisecond)
				}
			}
		})
	}
	for i := 0; h.more(i, 3000); i++ {
		a, r, e := h.str(6, "(", "[", "*", "\\", "{", "a", "\xff", "?", "+", ")", "|", ":", "\n"), h.str(6, "(", "[", "*", "\\", ":", "{", "a", "\xfe", "?", "+", ")", "|"), h.str(2, "deny", "x", "\xff")
		h.run(fmt.Sprintf("assertion %q %q %q", a, r, e), func() {
			as, err := NewAssertion(a, r, e)
			if err == nil && (as == nil || as.ActionRegexp == nil || as.ResourceRegexp == nil) {
				h.fail("nil-assertion", fmt.Sprintf("%q %q %q", a, r, e), as, "an assertion")
			}
			var g gache.Gache = gache.New()
			if err == nil {
				g.SetWithExpire("d:role.r", []*Assertion{as}, time.Hour)
			}
			p := &policyd{rolePolicies: &g}
			p.CheckPolicyRoles(context.Background(), "d", []string{"r", strings.Repeat("x", h.Intn(3))}, a, r)
		})
	}
	h.finish("policy bodies with missing, null and mistyped parts, all statuses, unasked 304 answers and odd assertion texts; any panic is a failure")
}
