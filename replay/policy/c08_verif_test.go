package policy

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"testing"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// keys: which (environment, key ID) exists; a signature is valid when it names the key and the exact text.
func scheme(keys map[string]bool) (pubkey.Provider, func(env, id, text string) string) {
	sign := func(env, id, text string) string { return fmt.Sprintf("sig[%s/%s]%x", env, id, text) }
	return func(env pubkey.AthenzEnv, id string) authcore.Verifier {
		if !keys[string(env)+"/"+id] {
			return nil
		}
		return okVerifier{func(in, sig string) error {
			if sig != sign(string(env), id, in) {
				return errScripted
			}
			return nil
		}}
	}, sign
}

func TestVerifC08(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 12000); i++ {
		keys := map[string]bool{}
		for _, k := range []string{"zts/1", "zts/2", "zms/1", "zms/2", "zts/", "zms/"} {
			if h.chance(70) {
				keys[k] = true
			}
		}
		pkp, sign := scheme(keys)
		off := time.Hour
		if h.chance(25) {
			off = []time.Duration{-time.Hour, -2 * time.Second, 5 * time.Second, -24 * time.Hour}[h.Intn(4)]
		}
		sp := mkSP("d", time.Now().Add(off), []rawAss{{"d:role.r", h.pick("a", "b"), "d:x", "allow"}})
		sp.KeyId = h.pick("1", "2", "1", "")
		sp.SignedPolicyData.ZmsKeyId = h.pick("1", "2", "1", "")
		want := off > 0
		pd, _ := json.Marshal(sp.SignedPolicyData.PolicyData)
		sp.SignedPolicyData.ZmsSignature = sign("zms", sp.SignedPolicyData.ZmsKeyId, string(pd))
		want = want && keys["zms/"+sp.SignedPolicyData.ZmsKeyId] && keys["zts/"+sp.KeyId]
		what := "as signed"
		mut := h.Intn(14)
		if mut == 0 {
			sp.SignedPolicyData.ZmsSignature = sign("zts", sp.SignedPolicyData.ZmsKeyId, string(pd))
			what, want = "ZMS signature made with the ZTS key", false
		}
		if mut == 1 {
			sp.SignedPolicyData.ZmsSignature = ""
			what, want = "empty ZMS signature", false
		}
		spd, _ := json.Marshal(sp.SignedPolicyData)
		sp.Signature = sign("zts", sp.KeyId, string(spd))
		switch mut {
		case 2:
			sp.SignedPolicyData.PolicyData.Domain = "evil"
			what, want = "policy part changed after signing", false
		case 3:
			sp.SignedPolicyData.Expires.Time = sp.SignedPolicyData.Expires.Time.Add(time.Hour)
			what, want = "expiry changed after signing", false
		case 4:
			sp.SignedPolicyData.PolicyData.Domain = "evil"
			spd, _ := json.Marshal(sp.SignedPolicyData)
			sp.Signature = sign("zts", sp.KeyId, string(spd))
			what, want = "policy part changed, signed by ZTS only", false
		case 5:
			sp.Signature = ""
			what, want = "empty ZTS signature", false
		case 6:
			sp.Signature = sign("zms", sp.KeyId, string(spd))
			what, want = "ZTS signature made with the ZMS key", false
		case 7:
			sp.SignedPolicyData.Expires = nil
			spd, _ := json.Marshal(sp.SignedPolicyData)
			sp.Signature = sign("zts", sp.KeyId, string(spd))
			what, want = "no expiry", false
		case 8:
			sp.SignedPolicyData = nil
			sp.Signature = sign("zts", sp.KeyId, "null")
			what, want = "no signed policy data", false
		case 9:
			sp = nil
			what, want = "no data", false
		}
		in := fmt.Sprintf("%s, expiry in %v, keys %v, key IDs %v", what, off, keys, func() string {
			if sp != nil && sp.SignedPolicyData != nil {
				return sp.KeyId + "," + sp.SignedPolicyData.ZmsKeyId
			}
			return ""
		}())
		viaFetch := h.chance(30)
		h.run(in, func() {
			h.seen(in)
			if err := sp.Verify(pkp); (err == nil) != want {
				h.fail("verify", in, err, want)
			}
			if !viaFetch {
				return
			}
			// the same data through a fetch, then a "not modified" answer
			p, err := New(WithAthenzDomains("d"), WithPubKeyProvider(pkp), WithRetryAttempts(-1), WithRetryDelay("0s"))
			if err != nil {
				h.fail("new", in, err, "a daemon")
				return
			}
			f := p.(*policyd).fetchers["d"].(*fetcher)
			body, _ := json.Marshal(sp)
			f.client = &http.Client{Transport: rtFunc(func(*http.Request) (*http.Response, error) { return mkResp(200, string(body), "e1"), nil })}
			got, err := f.Fetch(context.Background())
			if want && viaSame(sp) && (err != nil || got == nil) {
				h.fail("fetch-good", in, err, "the data")
			}
			if !want && (err == nil || got != nil) {
				h.fail("fetch-bad", in, fmt.Sprint(got, err), "an error and no data")
			}
			f.client = &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
				if !want && r.Header.Get("If-None-Match") != "" {
					h.fail("etag-of-bad", in, r.Header.Get("If-None-Match"), "no ETag of rejected data")
				}
				return mkResp(304, "", ""), nil
			})}
			got, err = f.Fetch(context.Background())
			if !want && (err == nil || got != nil) {
				h.fail("remembered-bad", in, fmt.Sprint(got, err), "an error and no data")
			}
			got, _ = f.FetchWithRetry(context.Background())
			if !want && got != nil {
				h.fail("retry-bad", in, got, "no data")
			}
		})
	}
	h.finish("signed data with every part changed, missing or signed by the wrong key, and unknown keys, under a signature scheme that accepts exactly the signed text")
}

// viaSame: the serialized form survives transport (times are serialized in milliseconds).
func viaSame(sp *SignedPolicy) bool {
	b, _ := json.Marshal(sp)
	var c *SignedPolicy
	if json.Unmarshal(b, &c) != nil || c == nil {
		return false
	}
	b2, _ := json.Marshal(c)
	return string(b) == string(b2)
}
