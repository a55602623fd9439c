package policy

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/kpango/gache"
	"github.com/pkg/errors"
)

type table map[string][]rawAss

func (tb table) load(t *testing.T) gache.Gache {
	g := gache.New()
	for k, l := range tb {
		var as []*Assertion
		for pass := 0; pass < 2; pass++ {
			for _, r := range l {
				if r.deny() == (pass == 0) {
					a, err := NewAssertion(r.Action, r.Resource, r.Effect)
					if err != nil {
						continue
					}
					as = append(as, a)
				}
			}
		}
		g.SetWithExpire(k, as, time.Hour)
	}
	return g
}

// decide: the stated meaning of a check. It returns "allow", "deny" or "nomatch", and the roles.
func (tb table) decide(domain string, roles []string, act, res string) (string, []string) {
	denied := false
	var ok []string
	for _, r := range roles {
		l := tb[domain+":role."+r]
		m, d := false, false
		for _, a := range l {
			if a.matches(domain, act, res) {
				if a.deny() {
					d = true
				} else {
					m = true
				}
			}
		}
		if d {
			denied = true
		} else if m {
			ok = append(ok, r)
		}
	}
	switch {
	case denied:
		return "deny", nil
	case len(ok) > 0:
		sort.Strings(ok)
		return "allow", ok
	}
	return "nomatch", nil
}

func outcome(roles []string, err error) (string, []string) {
	r := append([]string{}, roles...)
	sort.Strings(r)
	switch {
	case err == nil:
		return "allow", r
	case errors.Cause(err) == ErrDenyByPolicy:
		return "deny", nil
	case errors.Cause(err) == ErrNoMatch:
		return "nomatch", nil
	}
	return "error:" + err.Error(), nil
}

func TestVerifC01(t *testing.T) {
	h := newVH(t)
	gen := func(dom string, roles []string, n int) table {
		tb := table{}
		for i := h.Intn(n) + 1; i > 0; i-- {
			k := dom + ":role." + h.pick(roles...)
			ra := rawAss{k, h.pick("*", "read", "wri*", "WRITE", "r?ad", "x"), h.pick(dom, strings.ToUpper(dom), "other", dom) + ":" + h.pick("*", "a", "a*", "b", "A/b", "*b"), h.pick("allow", "deny", "DENY", "", "allow", "allow")}
			tb[k] = append(tb[k], ra)
		}
		return tb
	}
	for i := 0; h.more(i, 20000); i++ {
		dom := h.pick("dom", "Dom", "a.b", "d:role.x")
		names := []string{"r1", "r2", "R1", "r:role.x", "", "admin"}
		tb := gen(dom, names, 8)
		var roles []string
		for k := h.Intn(5); k > 0; k-- {
			roles = append(roles, h.pick(names...))
		}
		if h.chance(10) {
			for k := 0; k < 30; k++ {
				roles = append(roles, h.pick(names...))
			}
		}
		act, res := h.pick("read", "READ", "write", "x", ""), h.pick("a", "A", "b", "a/b", "", "zzz")
		qdom := dom
		if h.chance(15) {
			qdom = h.pick("dom", "DOM", "d", "other")
		}
		cancelled := h.chance(10)
		in := fmt.Sprintf("table=%v domain=%q roles=%q action=%q resource=%q cancelled=%v", tb, qdom, roles, act, res, cancelled)
		h.run(in, func() {
			g := tb.load(t)
			w, wr := tb.decide(qdom, roles, act, res)
			h.seen(in)
			rg := &recGache{Gache: g}
			if h.chance(30) {
				rg.onGet = func() { runtime.Gosched() }
			}
			if h.chance(4) {
				rg.onGet = func() { time.Sleep(time.Duration(time.Now().UnixNano()%3) * 200 * time.Microsecond) }
			}
			var gg gache.Gache = rg
			p := &policyd{rolePolicies: &gg}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if cancelled {
				cancel()
			}
			argRoles := append([]string{}, roles...)
			gotr, err := p.CheckPolicyRoles(ctx, qdom, argRoles, act, res)
			o, or := outcome(gotr, err)
			if cancelled {
				if o == "allow" && (w != "allow" || fmt.Sprint(or) != fmt.Sprint(wr)) {
					h.fail("cancelled", in, fmt.Sprint(o, or), w)
				}
				return
			}
			if o != w || fmt.Sprint(or) != fmt.Sprint(wr) {
				h.fail("decision", in, fmt.Sprint(o, or), fmt.Sprint(w, wr))
			}
			if err != nil && gotr != nil {
				h.fail("roles-with-error", in, gotr, nil)
			}
			if err2 := p.CheckPolicy(ctx, qdom, argRoles, act, res); (err2 == nil) != (w == "allow") {
				h.fail("check", in, err2, w)
			}
		})
	}
	// cancellation at some point of the check must not turn a refusal into a success
	for i := 0; h.more(i, 3000); i++ {
		names := []string{"r1", "r2", "r3"}
		tb := gen("dom", names, 6)
		act, res := h.pick("read", "write"), h.pick("a", "b")
		in := fmt.Sprintf("table=%v roles=%q action=%q resource=%q cancelled in the middle", tb, names, act, res)
		h.run(in, func() {
			w, wr := tb.decide("dom", names, act, res)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var n int32
			at := int32(h.Intn(4))
			rg := &recGache{Gache: tb.load(t), onGet: func() {
				if atomic.AddInt32(&n, 1) > at {
					cancel()
				}
			}}
			var gg gache.Gache = rg
			p := &policyd{rolePolicies: &gg}
			gotr, err := p.CheckPolicyRoles(ctx, "dom", names, act, res)
			o, or := outcome(gotr, err)
			if o == "allow" && (w != "allow" || fmt.Sprint(or) != fmt.Sprint(wr)) {
				h.fail("cancelled-midway", in, fmt.Sprint(o, or), fmt.Sprint(w, wr))
			}
		})
	}
	// one snapshot: the table in use changes while the check runs; each table alone gives the listed answers
	for i := 0; h.more(i, 3000); i++ {
		names := []string{"r1", "r2", "r3"}
		ta, tb2 := gen("dom", names, 6), gen("dom", names, 6)
		act, res := h.pick("read", "write"), h.pick("a", "b")
		in := fmt.Sprintf("first=%v then=%v roles=%q action=%q resource=%q table replaced during the check", ta, tb2, names, act, res)
		h.run(in, func() {
			wa, war := ta.decide("dom", names, act, res)
			wb, wbr := tb2.decide("dom", names, act, res)
			p := &policyd{}
			var ga, gb gache.Gache
			var n int32
			at := int32(h.Intn(3))
			swap := func() {
				if atomic.AddInt32(&n, 1) > at {
					atomic.StorePointer((*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies)), unsafe.Pointer(&gb))
				}
			}
			ga = &recGache{Gache: ta.load(t), onGet: swap}
			gb = &recGache{Gache: tb2.load(t)}
			p.rolePolicies = &ga
			gotr, err := p.CheckPolicyRoles(context.Background(), "dom", names, act, res)
			o, or := outcome(gotr, err)
			g := fmt.Sprint(o, or)
			if g != fmt.Sprint(wa, war) && g != fmt.Sprint(wb, wbr) {
				h.fail("snapshot", in, g, fmt.Sprint(wa, war, " or ", wb, wbr))
			}
		})
	}
	h.finish("random tables, roles and requests, cancellations and table swaps during the check, against the stated decision rule")
}
