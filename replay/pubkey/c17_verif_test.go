package pubkey

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVerifC17(t *testing.T) {
	h := newVH(t)
	ks := mkKeys(4)
	ids := []string{"0", "1", "a", ""}
	for i := 0; h.more(i, 700); i++ {
		d, err := New(WithAthenzURL("host/zts"), WithSysAuthDomain("sys.a"), WithETagExpiry("1h"))
		if err != nil {
			t.Fatal(err)
		}
		p := d.(*pubkeyd)
		prov := d.GetProvider()
		type version struct {
			set  map[string]int
			etag string // "" when the server sends none
		}
		type server struct {
			version
			past []version
			mode string
		}
		sv := map[string]*server{"zts": {version: version{set: map[string]int{}}}, "zms": {version: version{set: map[string]int{}}}}
		installed := map[string]map[string]int{"zts": {}, "zms": {}}
		ver := 0
		var mu sync.Mutex
		failed := map[string]bool{}
		full := map[string]bool{} // a full answer was sent in this refresh
		trace := ""
		p.client = &http.Client{Transport: rtFunc(func(r *http.Request) (*http.Response, error) {
			mu.Lock()
			defer mu.Unlock()
			u := r.URL.String()
			env := u[strings.LastIndex(u, "/")+1:]
			s := sv[env]
			if s == nil || u != "https://host/zts/domain/sys.a/service/"+env {
				h.fail("url", trace, u, "the environment's URL")
				return nil, errScripted
			}
			if s.mode != "ok" && s.mode != "unasked304" {
				failed[env] = true
			}
			good := setJSON(ks, s.set)
			switch s.mode {
			case "neterr":
				return nil, errScripted
			case "500", "404", "201", "403":
				c := 0
				fmt.Sscan(s.mode, &c)
				return mkResp(c, good, s.etag), nil
			case "junk":
				return mkResp(200, good[:len(good)/2], s.etag), nil
			case "null":
				return mkResp(200, "null", s.etag), nil
			case "nullkey":
				return mkResp(200, strings.Replace(good, `"publicKeys":`, `"publicKeys":[null],"x":`, 1), s.etag), nil
			case "badkey":
				return mkResp(200, `{"publicKeys":[{"id":"0","key":"`+ks[0].pub+`"},{"id":"bad","key":"`+[]string{"%%%", "QUJD", ""}[ver%3]+`"}]}`, s.etag), nil
			case "unasked304":
				if r.Header.Get("If-None-Match") == "" {
					failed[env] = true
				}
				if inm := r.Header.Get("If-None-Match"); inm != "" && inm != s.etag {
					// a correct server would send the new keys: not scripted here
					full[env] = true
					return mkResp(200, good, s.etag), nil
				}
				return mkResp(304, "", ""), nil
			}
			if inm := r.Header.Get("If-None-Match"); inm != "" && inm == s.etag {
				return mkResp(304, "", s.etag), nil
			}
			full[env] = true
			return mkResp(200, good, s.etag), nil
		})}
		h.run(fmt.Sprint("history ", i), func() {
			for step := 0; step < 8; step++ {
				mu.Lock()
				for _, env := range []string{"zts", "zms"} {
					s := sv[env]
					if h.chance(50) || step == 0 { // the server has other keys now
						ver++
						s.set = map[string]int{}
						for k := h.Intn(4); k > 0; k-- {
							s.set[h.pick(ids...)] = h.Intn(len(ks))
						}
						s.etag = fmt.Sprintf(`"v%d"`, ver)
						if h.chance(25) {
							s.etag = ""
						}
						if len(s.past) > 0 && h.chance(20) { // back to an earlier version
							s.version = s.past[h.Intn(len(s.past))]
						}
						s.past = append(s.past, s.version)
					}
					s.mode = h.pick("ok", "ok", "ok", "ok", "neterr", "500", "404", "201", "junk", "null", "nullkey", "badkey", "unasked304", "403")
					trace += fmt.Sprintf(" %s:%s%v etag=%s", env, s.mode, s.set, s.etag)
				}
				trace += ";"
				failed, full = map[string]bool{}, map[string]bool{}
				mu.Unlock()
				err := d.Update(context.Background())
				mu.Lock()
				if (err != nil) != (len(failed) > 0) {
					h.fail("result", trace, err, failed)
				}
				for _, env := range []string{"zts", "zms"} {
					if !failed[env] && (sv[env].mode == "ok" || full[env]) {
						installed[env] = sv[env].set // after a successful refresh: exactly the server's keys
					}
					for _, id := range append(ids, "none") {
						want, ok := installed[env][id]
						if !ok {
							want = -1
						}
						if got := whichKey(ks, prov(AthenzEnv(env), id)); got != want {
							h.fail("keys", trace, fmt.Sprintf("%s key %q is %d", env, id, got), want)
						}
					}
				}
				mu.Unlock()
			}
			h.seen(trace)
		})
		if i == 2 {
			h.samples = append(h.samples, trace)
		}
	}
	// no key of both sets is missing while a refresh runs
	for i := 0; h.more(i, 30); i++ {
		d, _ := New(WithAthenzURL("host/zts"))
		p := d.(*pubkeyd)
		a, b := map[string]int{"keep": 0}, map[string]int{"keep": 1}
		for k := 0; k < 12; k++ {
			a[fmt.Sprint("a", k)], b[fmt.Sprint("b", k)] = k%4, k%4
		}
		n := int32(0)
		p.client = &http.Client{Transport: rtFunc(func(*http.Request) (*http.Response, error) {
			if atomic.AddInt32(&n, 1)%4 < 2 {
				return mkResp(200, setJSON(ks, a), ""), nil
			}
			return mkResp(200, setJSON(ks, b), ""), nil
		})}
		h.run("lookups of a key of both sets during refreshes", func() {
			d.Update(context.Background())
			stop, done := make(chan struct{}), make(chan struct{})
			prov := d.GetProvider()
			var missing int32
			go func() {
				defer close(done)
				for {
					select {
					case <-stop:
						return
					default:
						if prov(EnvZTS, "keep") == nil || prov(EnvZMS, "keep") == nil {
							atomic.AddInt32(&missing, 1)
						}
					}
				}
			}()
			for k := 0; k < 6; k++ {
				d.Update(context.Background())
				time.Sleep(time.Duration(k) * 10 * time.Microsecond)
			}
			close(stop)
			<-done
			if missing > 0 {
				h.fail("gap", "refreshes between two sets that share the key \"keep\"", fmt.Sprint(missing, " failed lookups"), "none")
			}
		})
	}
	h.finish("histories of a key server with versions, ETags and failures of every kind; after a successful refresh the lookups must give exactly the server's keys, after a failed one the previous ones")
}
