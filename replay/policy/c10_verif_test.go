package policy

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/pkg/errors"
)

func TestVerifC10(t *testing.T) {
	h := newVH(t)
	type memo struct {
		etag string
		exp  time.Time
		id   string
	}
	// histories of one fetcher
	for i := 0; h.more(i, 4000); i++ {
		margin := []time.Duration{0, time.Hour, 3 * time.Hour, -time.Hour}[h.Intn(4)]
		attempts := h.Intn(5) - 2
		f := &fetcher{domain: "dom", athenzURL: "host/zts", expiryMargin: margin, retryDelay: time.Nanosecond, retryAttempts: attempts}
		f.spVerifier = func(sp *SignedPolicy) error {
			if sp == nil || sp.SignedPolicyData == nil || sp.SignedPolicyData.Expires == nil || sp.Signature == "bad" {
				return errScripted
			}
			return nil
		}
		var cur *memo
		trace := fmt.Sprintf("margin=%v attempts=%d:", margin, attempts)
		broken := false
		requests := 0
		var lastGood string
		var lastOK bool
		var kinds []string
		step := func(r *http.Request) (*http.Response, error) {
			requests++
			want := ""
			if cur != nil && cur.etag != "" && time.Now().Before(cur.exp.Add(-margin)) {
				want = cur.etag
			}
			if got := r.Header.Get("If-None-Match"); got != want {
				h.fail("etag", trace, got, want)
				broken = true
			}
			if u := r.URL.String(); u != "https://host/zts/domain/dom/signed_policy_data" {
				h.fail("url", trace, u, "the domain's URL")
			}
			kind := kinds[(requests-1)%len(kinds)]
			trace += " " + kind
			switch kind {
			case "200", "200e", "200short", "200old":
				id := fmt.Sprint("id", h.Intn(1000000))
				off := 10 * time.Hour
				if kind == "200short" {
					off = 2 * time.Hour
				}
				if kind == "200old" {
					off = -2 * time.Hour // the verifier of this harness lets it through
				}
				et := ""
				if kind != "200" {
					et = `"` + id + `"`
				}
				exp := time.Now().Add(off)
				sp := mkSP("dom", exp)
				sp.KeyId = id
				b, _ := json.Marshal(sp)
				cur = &memo{et, exp, id}
				lastGood, lastOK = id, true
				return mkResp(200, string(b), et), nil
			case "304":
				lastOK = cur != nil
				if cur != nil {
					lastGood = cur.id
				}
				return mkResp(304, "", ""), nil
			case "bad":
				sp := mkSP("dom", time.Now().Add(time.Hour))
				sp.Signature = "bad"
				b, _ := json.Marshal(sp)
				lastOK = false
				return mkResp(200, string(b), "evil"), nil
			case "junk":
				lastOK = false
				return mkResp(200, h.pick("{", "null", "[]", "\"x\"", "", "{}", `{"signedPolicyData":null}`), "junk"), nil
			case "err":
				lastOK = false
				return nil, errScripted
			default:
				lastOK = false
				var c int
				fmt.Sscan(kind, &c)
				sp := mkSP("dom", time.Now().Add(time.Hour))
				b, _ := json.Marshal(sp)
				return mkResp(c, string(b), "x"), nil
			}
		}
		f.client = &http.Client{Transport: rtFunc(step), CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		all := []string{"200", "200e", "200e", "200short", "200old", "304", "304", "bad", "junk", "err", "500", "404", "201", "401", "204", "206"}
		h.run(trace, func() {
			for s := 0; s < 6 && !broken; s++ {
				kinds = nil
				for k := 0; k < 5; k++ {
					kinds = append(kinds, h.pick(all...))
				}
				requests = 0
				if h.chance(50) {
					trace += " Fetch("
					sp, err := f.Fetch(context.Background())
					trace += ")"
					if (err == nil) != lastOK || (err == nil && sp.KeyId != lastGood) || (err != nil && sp != nil) {
						h.fail("fetch", trace, fmt.Sprint(idOf(sp), " ", err), fmt.Sprint(lastOK, " ", lastGood))
						return
					}
				} else {
					trace += " FetchWithRetry("
					lastOK = false
					sp, err := f.FetchWithRetry(context.Background())
					trace += ")"
					max := attempts + 1
					if max < 0 {
						max = 0
					}
					if requests > max {
						h.fail("attempts", trace, requests, max)
						return
					}
					if lastOK {
						if err != nil || sp == nil || sp.KeyId != lastGood {
							h.fail("retry-first-success", trace, fmt.Sprint(idOf(sp), " ", err), lastGood)
							return
						}
					} else {
						if err == nil {
							h.fail("retry-no-error", trace, idOf(sp), "an error")
							return
						}
						if requests != max {
							h.fail("attempts", trace, requests, max)
							return
						}
						w := ""
						if cur != nil {
							w = cur.id
						}
						if idOf(sp) != w {
							h.fail("retry-remembered", trace, idOf(sp), w)
							return
						}
					}
				}
			}
			h.seen(trace)
		})
	}
	// refreshes of a daemon with several domains
	for i := 0; h.more(i, 2500); i++ {
		n := 1 + h.Intn(4)
		fs := map[string]Fetcher{}
		in := ""
		fail := false
		var want []string
		for k := 0; k < n; k++ {
			d := fmt.Sprint("d", k)
			kind := h.pick("ok", "ok", "ok", "ok", "fail", "remembered", "bad-assertion", "no-data", "null-policy", "cancel")
			if h.chance(30) {
				kind = "ok"
			}
			in += d + ":" + kind + " "
			f := &fakeFetcher{dom: d}
			good := mkSP(d, time.Now().Add(time.Hour), []rawAss{{d + ":role.new", "a", d + ":r", "allow"}})
			var sp *SignedPolicy
			var err error
			switch kind {
			case "ok":
				sp = good
				want = append(want, d)
			case "fail":
				err, fail = []error{errScripted, ErrFetchPolicy, errors.Wrap(errors.Wrap(errors.Wrap(ErrFetchPolicy, "fetch policy HTTP response != 200 OK"), "max. retry count excess"), "no policy cache"), context.DeadlineExceeded, io.ErrUnexpectedEOF, ErrInvalidPolicyResource, ErrNoMatch}[h.Intn(7)], true
				in += fmt.Sprintf("(%v) ", err)
			case "remembered":
				sp, err = good, errScripted
				want = append(want, d)
			case "bad-assertion":
				sp = mkSP(d, time.Now().Add(time.Hour), []rawAss{{d + ":role.new", "a", "nocolon", "allow"}})
				fail = true
			case "no-data":
				sp = mkSP(d, time.Now().Add(time.Hour))
				sp.SignedPolicyData.PolicyData = nil
				fail = true
			case "null-policy":
				sp = mkSP(d, time.Now().Add(time.Hour))
				sp.SignedPolicyData.PolicyData.Policies = append(sp.SignedPolicyData.PolicyData.Policies, nil)
				fail = true
			case "cancel":
				err, fail = context.Canceled, true
			}
			slow := h.chance(30)
			f.fetch = func(context.Context) (*SignedPolicy, error) {
				if slow {
					time.Sleep(200 * time.Microsecond)
				}
				return sp, err
			}
			fs[d] = f
		}
		cancelled := h.chance(10)
		if cancelled {
			in += "context cancelled"
		}
		h.run(in, func() {
			old := gache.New()
			a, _ := NewAssertion("a", "d0:r", "allow")
			old.SetWithExpire("d0:role.old", []*Assertion{a}, time.Hour)
			p := &policyd{rolePolicies: &old, fetchers: fs, purgePeriod: time.Hour}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if cancelled {
				cancel()
			}
			err := p.Update(ctx)
			h.seen(in)
			m := p.GetPolicyCache(context.Background())
			if fail || cancelled {
				if err == nil {
					h.fail("update-error", in, "no error", "an error")
				}
				if len(m) != 1 || m["d0:role.old"] == nil {
					h.fail("table-changed", in, keysOf(m), "[d0:role.old]")
				}
				if _, e := p.CheckPolicyRoles(context.Background(), "d0", []string{"old"}, "a", "r"); e != nil {
					h.fail("old-table", in, e, "still answering")
				}
				return
			}
			if err != nil {
				h.fail("update", in, err, "no error")
				return
			}
			ok := len(m) == len(want)
			for _, d := range want {
				ok = ok && m[d+":role.new"] != nil
			}
			if !ok {
				h.fail("table", in, keysOf(m), want)
			}
		})
	}
	h.finish("random histories of server answers for one fetcher, and refreshes over several scripted domains; a model of the remembered data decides")
}

func idOf(sp *SignedPolicy) string {
	if sp == nil {
		return ""
	}
	return sp.KeyId
}

func keysOf(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}
