package jwk

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"testing"
)

func TestVerifC18(t *testing.T) {
	h := newVH(t)
	const athenz = "https://host/zts/oauth2/keys?rfc=true"
	for i := 0; h.more(i, 2500); i++ {
		pool := []string{"https://u1/keys", "https://u2/keys", "http://u3/k", athenz, "https://host/zts/OAuth2/keys?rfc=true", "https://U1/keys"}
		var urls []string
		for k := h.Intn(4); k > 0; k-- {
			u := h.pick(pool...)
			if u == athenz && h.chance(60) {
				continue
			}
			urls = append(urls, u)
		}
		d, err := New(WithAthenzJwksURL("host/zts"), WithURLs(urls))
		if err != nil {
			h.fail("new", urls, err, nil)
			continue
		}
		times := map[string]int{}
		for _, u := range urls {
			times[u]++
		}
		if times[athenz] == 0 {
			times[athenz] = 1
		}
		j := d.(*jwkd)
		trace := fmt.Sprintf("urls %v:", urls)
		have := map[string]map[string]string{}
		serve := map[string]string{}
		mode := map[string]string{}
		sets := map[string]map[string]string{}
		asked := map[string]int{}
		j.client = &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
			u := r.URL.String()
			asked[u]++
			switch mode[u] {
			case "neterr":
				return nil, errScripted
			case "500", "404", "304", "204":
				c := 0
				fmt.Sscan(mode[u], &c)
				return mkResp(c, serve[u]), nil
			case "junk":
				return mkResp(200, "{"), nil
			case "":
				return nil, errScripted
			}
			return mkResp(200, serve[u]), nil
		}), CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		h.run(trace, func() {
			for step := 0; step < 5; step++ {
				fails := false
				asked = map[string]int{}
				for _, u := range pool {
					sets[u] = map[string]string{}
					for k := h.Intn(4); k > 0; k-- {
						sets[u][h.pick("k1", "k2", "K1", "k 3")] = fmt.Sprint("raw ", u, h.Intn(1000))
					}
					serve[u] = octSet(sets[u])
					mode[u] = h.pick("ok", "ok", "ok", "neterr", "500", "404", "junk", "204")
					trace += fmt.Sprintf(" %s=%s", u, mode[u])
					if times[u] > 0 {
						if mode[u] == "ok" {
							have[u] = sets[u]
						} else {
							fails = true
						}
					}
				}
				trace += ";"
				err := d.Update(context.Background())
				if (err != nil) != fails {
					h.fail("result", trace, err, fails)
				}
				for u, n := range asked {
					if n != times[u] {
						h.fail("fetches", trace, fmt.Sprint(u, " ", n), times[u])
					}
				}
				for u, n := range times {
					if asked[u] != n {
						h.fail("fetches", trace, fmt.Sprint(u, " ", asked[u]), n)
					}
				}
				prov := d.GetProvider()
				for _, u := range append([]string{"", "https://none/keys", "https://u1/keys/", strings.ToUpper(pool[0]), "host/zts"}, pool...) {
					for _, id := range []string{"k1", "k2", "K1", "k 3", "", "zz"} {
						src := u
						if u == "" {
							src = athenz
						}
						want := ""
						if v, ok := have[src][id]; ok && id != "" {
							want = v
						}
						got := ""
						switch v := prov(id, u).(type) {
						case nil:
						case []byte:
							got = string(v)
						default:
							got = fmt.Sprintf("%T", v)
						}
						if got != want {
							h.fail("lookup", fmt.Sprintf("%s lookup %q in %q", trace, id, u), got, want)
						}
					}
				}
			}
			h.seen(trace)
		})
	}
	h.finish("histories of key servers with changing sets and failures per URL; lookups of every ID in every configured and unconfigured URL against the last set fetched from it")
}
