package policy

import (
	"fmt"
	"net/http"
	"reflect"
	"testing"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

func TestVerifC19(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 4000); i++ {
		want := map[string]interface{}{"margin": 3 * time.Hour, "refresh": 30 * time.Minute, "purge": time.Hour, "delay": time.Minute, "attempts": 2, "url": "", "domains": []string(nil)}
		client := http.DefaultClient
		pk := 0
		var called int
		mk := func(n int) pubkey.Provider {
			return func(pubkey.AthenzEnv, string) authcore.Verifier { called = n; return nil }
		}
		var opts []Option
		in := ""
		fail := false
		durs := map[string]func(string) Option{"margin": WithExpiryMargin, "refresh": WithRefreshPeriod, "purge": WithPurgePeriod, "delay": WithRetryDelay}
		for n := h.Intn(7); n > 0; n-- {
			k := h.pick("margin", "refresh", "purge", "delay", "attempts", "url", "domains", "client", "pk")
			switch k {
			case "attempts":
				v := h.Intn(7) - 2
				in += fmt.Sprint(" attempts=", v)
				opts = append(opts, WithRetryAttempts(v))
				if v != 0 {
					want[k] = v
				}
			case "url":
				v := h.pick("a.b/c", "http://a.b/c", "https://x", "ftp://x", "", "http://https://x", "HTTP://x", "host:443/x", "httpss://x", "a+b://x", "xhttp://y", "x/http://y")
				in += " url=" + v
				opts = append(opts, WithAthenzURL(v))
				w, ok := trimURL(v)
				fail = fail || !ok
				if !fail {
					want[k] = w
				}
			case "domains":
				v := [][]string{nil, {"a"}, {"a", "b"}, {}, {"x", "x"}, {"", "y"}}[h.Intn(6)]
				in += fmt.Sprintf(" domains=%q", v)
				opts = append(opts, WithAthenzDomains(v...))
				if v != nil {
					want[k] = v
				}
			case "client":
				c := &http.Client{Timeout: time.Duration(n) * time.Second}
				if h.chance(30) {
					opts = append(opts, WithHTTPClient(nil))
					in += " client=nil"
				} else {
					opts = append(opts, WithHTTPClient(c))
					client = c
					in += fmt.Sprint(" client#", n)
				}
			case "pk":
				if h.chance(20) {
					opts = append(opts, WithPubKeyProvider(nil))
					in += " pk=nil"
				} else {
					opts = append(opts, WithPubKeyProvider(mk(n)))
					pk = n
					in += fmt.Sprint(" pk#", n)
				}
			default:
				v := h.pick("", "1s", "90m", "2h45m", "-1s", "0s", "x", "1", "1d", " 1s", "1.5h")
				in += " " + k + "=" + v
				opts = append(opts, durs[k](v))
				if v != "" {
					d, err := time.ParseDuration(v)
					fail = fail || err != nil
					if !fail {
						want[k] = d
					}
				}
			}
		}
		h.run(in, func() {
			d, err := New(opts...)
			h.seen(in)
			if (err != nil) != fail {
				h.fail("construction", in, err, fail)
				return
			}
			if fail {
				return
			}
			p := d.(*policyd)
			got := map[string]interface{}{"margin": p.expiryMargin, "refresh": p.refreshPeriod, "purge": p.purgePeriod, "delay": p.retryDelay, "attempts": p.retryAttempts, "url": p.athenzURL, "domains": p.athenzDomains}
			if len(p.athenzDomains) == 0 {
				got["domains"] = want["domains"]
				if w, _ := want["domains"].([]string); len(w) != 0 {
					got["domains"] = "none"
				}
			}
			if !reflect.DeepEqual(got, want) {
				h.fail("parameters", in, got, want)
			}
			if p.client != client {
				h.fail("client", in, p.client, client)
			}
			called = 0
			if p.pkp != nil {
				p.pkp(pubkey.EnvZTS, "x")
			}
			if called != pk {
				h.fail("pk", in, called, pk)
			}
			ds := map[string]bool{}
			w, _ := want["domains"].([]string)
			for _, x := range w {
				ds[x] = true
				f, ok := p.fetchers[x].(*fetcher)
				if !ok || f == nil {
					h.fail("fetcher", in, "none for "+x, "one")
					continue
				}
				if f.domain != x || f.expiryMargin != want["margin"] || f.retryDelay != want["delay"] || f.retryAttempts != want["attempts"] || f.athenzURL != want["url"] || f.client != client {
					h.fail("fetcher-parameters", in, fmt.Sprintf("%+v", *f), want)
				}
				called = 0
				sp := mkSP("d", time.Now().Add(time.Hour))
				if err := f.spVerifier(sp); err == nil || called != pk {
					h.fail("verifier", in, fmt.Sprint(err, called), pk)
				}
			}
			if len(p.fetchers) != len(ds) {
				h.fail("fetchers", in, len(p.fetchers), len(ds))
			}
		})
	}
	h.finish("random option lists; the parameters of the daemon and of its fetchers are compared with the last value given or the documented default")
}
