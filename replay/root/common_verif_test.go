package authorizerd

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"sync"
	"time"

	"github.com/golang-jwt/jwt/v4"
	"github.com/kpango/gache"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

var errScripted = errors.New("scripted failure")

type fakeRole struct {
	f func(tok string) (*role.Token, error)
	n int
}

func (r *fakeRole) ParseAndValidateRoleToken(tok string) (*role.Token, error) {
	r.n++
	return r.f(tok)
}

type fakeAccess struct {
	f func(tok string, c *x509.Certificate) (*access.OAuth2AccessTokenClaim, error)
	n int
}

func (r *fakeAccess) ParseAndValidateOAuth2AccessToken(tok string, c *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
	r.n++
	return r.f(tok, c)
}

type polCall struct {
	Dom   string
	Roles []string
	Act   string
	Res   string
}

type fakePolicy struct {
	mu     sync.Mutex
	calls  []polCall
	f      func(c polCall) ([]string, error)
	update func(context.Context) error
}

func (p *fakePolicy) Start(context.Context) <-chan error { return make(chan error) }
func (p *fakePolicy) Update(c context.Context) error     { return p.update(c) }
func (p *fakePolicy) CheckPolicy(ctx context.Context, d string, r []string, a, res string) error {
	_, err := p.CheckPolicyRoles(ctx, d, r, a, res)
	return err
}
func (p *fakePolicy) CheckPolicyRoles(ctx context.Context, d string, r []string, a, res string) ([]string, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	c := polCall{d, append([]string{}, r...), a, res}
	p.calls = append(p.calls, c)
	return p.f(c)
}
func (p *fakePolicy) GetPolicyCache(context.Context) map[string]interface{} { return nil }

type fakePub struct{ update func(context.Context) error }

func (p *fakePub) Start(context.Context) <-chan error { return make(chan error) }
func (p *fakePub) Update(c context.Context) error     { return p.update(c) }
func (p *fakePub) GetProvider() pubkey.Provider       { return nil }

type fakeJwk struct{ update func(context.Context) error }

func (p *fakeJwk) Start(context.Context) <-chan error { return make(chan error) }
func (p *fakeJwk) Update(c context.Context) error     { return p.update(c) }
func (p *fakeJwk) GetProvider() jwk.Provider          { return nil }

type fakeTrans struct {
	f func(dom, method, path, query string) (string, string, error)
}

func (x fakeTrans) Translate(dom, method, path, query string) (string, string, error) {
	return x.f(dom, method, path, query)
}

type put struct {
	key string
	val interface{}
	exp time.Duration
	dfl bool
}

type recCache struct {
	gache.Gache
	puts []put
	gets int
}

func (g *recCache) Get(k string) (interface{}, bool) { g.gets++; return g.Gache.Get(k) }
func (g *recCache) SetWithExpire(k string, v interface{}, d time.Duration) {
	g.puts = append(g.puts, put{k, v, d, false})
	g.Gache.SetWithExpire(k, v, d)
}
func (g *recCache) Set(k string, v interface{}) {
	g.puts = append(g.puts, put{k, v, 0, true})
	g.Gache.Set(k, v)
}

func cert(issuer, subject string) *x509.Certificate {
	return &x509.Certificate{Issuer: pkix.Name{CommonName: issuer}, Subject: pkix.Name{CommonName: subject}}
}

func claim(sub, aud, cid string, scope []string, iat, exp int64) *access.OAuth2AccessTokenClaim {
	c := &access.OAuth2AccessTokenClaim{ClientID: cid, Scope: scope}
	c.BaseClaim = access.BaseClaim{StandardClaims: jwt.StandardClaims{Subject: sub, Audience: aud, IssuedAt: iat, ExpiresAt: exp}}
	return c
}
