package client

import (
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"strings"
	"testing"
	"time"
)

type tmpErr struct{ tmp bool }

func (e tmpErr) Error() string   { return fmt.Sprint("scripted, temporary ", e.tmp) }
func (e tmpErr) Temporary() bool { return e.tmp }

type trackBody struct {
	*strings.Reader
	closed, read bool
}

func (b *trackBody) Close() error { b.closed = true; return nil }
func (b *trackBody) Read(p []byte) (int, error) {
	b.read = true
	return b.Reader.Read(p)
}

type script func(n int) (*http.Response, error)

type inner struct {
	n int
	f script
}

func (i *inner) RoundTrip(*http.Request) (*http.Response, error) {
	i.n++
	return i.f(i.n - 1)
}

func TestVerifC21(t *testing.T) {
	h := newVH(t)
	retry := map[string]bool{"429": true, "500": true, "503": true, "504": true}
	for i := 0; h.more(i, 12000); i++ {
		max := 1 + h.Intn(5)
		// a long limit never stops, a short one always
		limit := time.Hour
		short := h.chance(25)
		if short {
			limit = []time.Duration{0, -time.Second}[h.Intn(2)]
		}
		var kinds []string
		for k := 0; k < max+2; k++ {
			kinds = append(kinds, h.pick("tmp", "tmp", "perm", "plain", "200", "404", "429", "500", "503", "504", "502", "408", "304", "501", "505", "429", "503"))
		}
		in := fmt.Sprintf("at most %d attempts, limit %v, inner answers %v", max, limit, kinds)
		h.run(in, func() {
			var bodies []*trackBody
			var resps []*http.Response
			var errs []error
			it := &inner{f: func(n int) (*http.Response, error) {
				if n >= len(kinds) {
					n = len(kinds) - 1
				}
				bodies, resps, errs = append(bodies, nil), append(resps, nil), append(errs, nil)
				l := len(bodies) - 1
				switch kinds[n] {
				case "tmp":
					errs[l] = &tmpErr{true}
				case "perm":
					errs[l] = &tmpErr{false}
				case "plain":
					errs[l] = errors.New("plain")
				default:
					c := 0
					fmt.Sscan(kinds[n], &c)
					bodies[l] = &trackBody{Reader: strings.NewReader("body " + kinds[n])}
					resps[l] = &http.Response{StatusCode: c, Body: bodies[l]}
				}
				return resps[l], errs[l]
			}}
			rt, err := NewExponentialRoundTripper(it, 100000, max, limit)
			if err != nil {
				h.fail("new", in, err, nil)
				return
			}
			req, _ := http.NewRequest("GET", "http://h/", nil)
			r, err := rt.RoundTrip(req)
			h.seen(in)
			// the stated outcome
			n := 0
			for n < max {
				k := kinds[n]
				n++
				if k == "perm" || k == "plain" || (k == "tmp" && short) || (k != "tmp" && !retry[k]) {
					break
				}
			}
			if it.n > max {
				h.fail("attempts", in, it.n, max)
			}
			if it.n != n {
				h.fail("attempts", in, it.n, n)
				return
			}
			last := n - 1
			if errs[last] != nil {
				if err != errs[last] || r != nil {
					h.fail("error", in, fmt.Sprint(r, err), errs[last])
				}
				return
			}
			if err != nil || r != resps[last] {
				h.fail("response", in, fmt.Sprint(r, err), kinds[last])
				return
			}
			if bodies[last].closed || bodies[last].read {
				h.fail("body", in, "read or closed", "unread and open")
			}
			b, _ := ioutil.ReadAll(r.Body)
			if string(b) != "body "+kinds[last] {
				h.fail("body", in, string(b), "body "+kinds[last])
			}
		})
	}
	// the next wait exceeds the limit only after some attempts: waits grow with every attempt
	for i := 0; h.more(i, 3); i++ {
		in := "temporary errors for ever, waits of 20, 60, 100, 140... ms, limit 150 ms"
		h.run(in, func() {
			it := &inner{f: func(int) (*http.Response, error) { return nil, &tmpErr{true} }}
			rt, _ := NewExponentialRoundTripper(it, 7.0710678, 50, 150*time.Millisecond)
			req, _ := http.NewRequest("GET", "http://h/", nil)
			st := time.Now()
			_, err := rt.RoundTrip(req)
			if err == nil || it.n > 5 || time.Since(st) > 450*time.Millisecond {
				h.fail("limit", in, fmt.Sprint(err, it.n, time.Since(st)), "stops at the limit")
			}
		})
	}
	h.finish("scripted inner answers, counts and limits; the stated rule decides attempts, outcome and body")
}
