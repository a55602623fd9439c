package jwk

import (
	"fmt"
	"net/http"
	"reflect"
	"testing"
	"time"
)

func TestVerifC19(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 8000); i++ {
		want := map[string]interface{}{"refresh": 24 * time.Hour, "delay": time.Minute, "url": "", "urls": []string(nil)}
		client := http.DefaultClient
		var opts []Option
		in := ""
		fail := false
		durs := map[string]func(string) Option{"refresh": WithRefreshPeriod, "delay": WithRetryDelay}
		for n := h.Intn(6); n > 0; n-- {
			k := h.pick("refresh", "delay", "url", "client", "urls")
			switch k {
			case "url":
				v := h.pick("a.b/c", "http://a.b/c", "https://x", "ftp://x", "", "http://https://x", "HTTP://x", "host:443/x", "x/http://y")
				in += " url=" + v
				opts = append(opts, WithAthenzJwksURL(v))
				w, ok := trimURL(v)
				fail = fail || !ok || v == ""
				want[k] = "https://" + w + "/oauth2/keys?rfc=true"
			case "urls":
				v := [][]string{nil, {}, {"https://a/x"}, {"http://a", "https://b?c=d"}, {"ftp://x"}, {"https://a", "b"}, {""}, {"https://a", "HTTP://b"}}[h.Intn(8)]
				in += fmt.Sprintf(" urls=%q", v)
				opts = append(opts, WithURLs(v))
				for _, u := range v {
					fail = fail || u == "ftp://x" || u == "b" || u == ""
				}
				want[k] = v
			case "client":
				client = &http.Client{Timeout: time.Duration(n) * time.Second}
				opts = append(opts, WithHTTPClient(client))
				in += fmt.Sprint(" client#", n)
			default:
				v := h.pick("", "1s", "90m", "-1s", "0s", "x", "1", "1d", "1.5h")
				in += " " + k + "=" + v
				opts = append(opts, durs[k](v))
				if v != "" {
					d, err := time.ParseDuration(v)
					fail = fail || err != nil
					want[k] = d
				}
			}
		}
		h.run(in, func() {
			d, err := New(opts...)
			h.seen(in)
			if (err != nil) != fail {
				h.fail("construction", in, err, fail)
				return
			}
			if fail {
				return
			}
			p := d.(*jwkd)
			got := map[string]interface{}{"refresh": p.refreshPeriod, "delay": p.retryDelay, "url": p.athenzJwksURL, "urls": p.urls}
			if len(p.urls) == 0 && len(want["urls"].([]string)) == 0 {
				got["urls"] = want["urls"]
			}
			if !reflect.DeepEqual(got, want) {
				h.fail("parameters", in, got, want)
			}
			if p.client != client {
				h.fail("client", in, p.client, client)
			}
		})
	}
	h.finish("random option lists; every parameter is compared with the last value given or the documented default")
}
