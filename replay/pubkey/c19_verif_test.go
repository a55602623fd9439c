package pubkey

import (
	"fmt"
	"net/http"
	"reflect"
	"testing"
	"time"
)

func TestVerifC19(t *testing.T) {
	h := newVH(t)
	for i := 0; h.more(i, 8000); i++ {
		want := map[string]interface{}{"dom": "sys.auth", "refresh": 24 * time.Hour, "exp": 168 * time.Hour, "purge": 84 * time.Hour, "delay": time.Minute, "url": ""}
		var client *http.Client
		var opts []Option
		in := ""
		fail := false
		durs := map[string]func(string) Option{"refresh": WithRefreshPeriod, "exp": WithETagExpiry, "purge": WithETagPurgePeriod, "delay": WithRetryDelay}
		for n := h.Intn(7); n > 0; n-- {
			k := h.pick("refresh", "exp", "purge", "delay", "dom", "url", "client")
			switch k {
			case "dom":
				v := h.pick("", "a", "b.c")
				in += " dom=" + v
				opts = append(opts, WithSysAuthDomain(v))
				if v != "" {
					want[k] = v
				}
			case "url":
				v := h.pick("a.b/c", "http://a.b/c", "https://x", "ftp://x", "", "http://https://x", "HTTP://x", "host:443/x", "x/http://y")
				in += " url=" + v
				opts = append(opts, WithAthenzURL(v))
				w, ok := trimURL(v)
				fail = fail || !ok
				want[k] = w
			case "client":
				client = &http.Client{Timeout: time.Duration(n) * time.Second}
				opts = append(opts, WithHTTPClient(client))
				in += fmt.Sprint(" client#", n)
			default:
				v := h.pick("", "1s", "90m", "-1s", "0s", "x", "1", "1d", "1.5h")
				in += " " + k + "=" + v
				opts = append(opts, durs[k](v))
				if v != "" {
					d, err := time.ParseDuration(v)
					fail = fail || err != nil
					want[k] = d
				}
			}
		}
		h.run(in, func() {
			d, err := New(opts...)
			h.seen(in)
			if (err != nil) != fail {
				h.fail("construction", in, err, fail)
				return
			}
			if fail {
				return
			}
			p := d.(*pubkeyd)
			got := map[string]interface{}{"dom": p.sysAuthDomain, "refresh": p.refreshPeriod, "exp": p.eTagExpiry, "purge": p.eTagPurgePeriod, "delay": p.retryDelay, "url": p.athenzURL}
			if !reflect.DeepEqual(got, want) {
				h.fail("parameters", in, got, want)
			}
			if (client != nil && p.client != client) || p.client == nil {
				h.fail("client", in, p.client, client)
			}
		})
	}
	h.finish("random option lists; every parameter is compared with the last value given or the documented default")
}
