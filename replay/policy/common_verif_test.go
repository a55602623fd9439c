package policy

import (
	"context"
	"errors"
	"io/ioutil"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/kpango/gache"
)

// globMatch: the documented meaning of assertion patterns, on lower-cased text.
func globMatch(pat, s string) bool {
	p, t := []rune(strings.ToLower(pat)), []rune(strings.ToLower(s))
	// m[i][j]: p[i:] matches t[j:]
	m := make([][]bool, len(p)+1)
	for i := range m {
		m[i] = make([]bool, len(t)+1)
	}
	m[len(p)][len(t)] = true
	for i := len(p) - 1; i >= 0; i-- {
		for j := len(t); j >= 0; j-- {
			switch {
			case p[i] == '*':
				m[i][j] = m[i+1][j] || (j < len(t) && m[i][j+1])
			case j == len(t):
			case p[i] == '?' || p[i] == t[j]:
				m[i][j] = m[i+1][j+1]
			}
		}
	}
	return m[0][0]
}

// rawAss is an assertion as the policy states it.
type rawAss struct{ Role, Action, Resource, Effect string }

func (r rawAss) deny() bool { return strings.ToLower(r.Effect) == "deny" }
func (r rawAss) dom() string {
	return r.Resource[:strings.Index(r.Resource, ":")]
}
func (r rawAss) res() string {
	return r.Resource[strings.Index(r.Resource, ":")+1:]
}
func (r rawAss) matches(domain, action, resource string) bool {
	return strings.EqualFold(r.dom(), domain) && globMatch(r.Action, action) && globMatch(r.res(), resource)
}

func (r rawAss) util() *util.Assertion {
	return &util.Assertion{Role: r.Role, Action: r.Action, Resource: r.Resource, Effect: r.Effect}
}

func mkSP(dom string, exp time.Time, pols ...[]rawAss) *SignedPolicy {
	sp := &SignedPolicy{}
	sp.SignedPolicyData = &util.SignedPolicyData{
		Expires:    &rdl.Timestamp{Time: exp},
		Modified:   &rdl.Timestamp{Time: exp},
		PolicyData: &util.PolicyData{Domain: dom},
	}
	for _, p := range pols {
		up := &util.Policy{Name: "p"}
		for _, a := range p {
			up.Assertions = append(up.Assertions, a.util())
		}
		sp.SignedPolicyData.PolicyData.Policies = append(sp.SignedPolicyData.PolicyData.Policies, up)
	}
	return sp
}

// recGache records what is stored and may act before reads.
type recGache struct {
	gache.Gache
	mu    sync.Mutex
	puts  []putRec
	onGet func()
}

type putRec struct {
	Key string
	TTL time.Duration
	At  time.Time
}

func (g *recGache) Get(k string) (interface{}, bool) {
	if g.onGet != nil {
		g.onGet()
	}
	return g.Gache.Get(k)
}

func (g *recGache) SetWithExpire(k string, v interface{}, d time.Duration) {
	g.mu.Lock()
	g.puts = append(g.puts, putRec{k, d, time.Now()})
	g.mu.Unlock()
	g.Gache.SetWithExpire(k, v, d)
}

func (g *recGache) Set(k string, v interface{}) {
	g.mu.Lock()
	g.puts = append(g.puts, putRec{k, 0, time.Now()})
	g.mu.Unlock()
	g.Gache.Set(k, v)
}

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func mkResp(status int, body string, etag string) *http.Response {
	h := http.Header{}
	if etag != "" {
		h.Set("ETag", etag)
	}
	return &http.Response{StatusCode: status, Header: h, Body: ioutil.NopCloser(strings.NewReader(body)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Status: "x"}
}

type fakeFetcher struct {
	dom   string
	fetch func(ctx context.Context) (*SignedPolicy, error)
}

func (f *fakeFetcher) Domain() string                                          { return f.dom }
func (f *fakeFetcher) Fetch(ctx context.Context) (*SignedPolicy, error)        { return f.fetch(ctx) }
func (f *fakeFetcher) FetchWithRetry(c context.Context) (*SignedPolicy, error) { return f.fetch(c) }

var errScripted = errors.New("scripted failure")

type okVerifier struct{ f func(in, sig string) error }

func (v okVerifier) Verify(in, sig string) error { return v.f(in, sig) }
