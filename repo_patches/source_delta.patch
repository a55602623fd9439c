From 646092985e0d7b58a21ddc0814b02a3a37282cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 01/15] fix: escape the components of the authorization cache
 key

The key joined token, certificate names, action, resource and query with
":" as they were, so different requests could share one key and a cached
success could answer for a request that was never authorized.
---
 authorizerd.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..887c7e6 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -124,6 +124,9 @@ const (
 	accessToken
 )
 
+// cacheKeyEscaper keeps cacheKeyDelimiter out of the components of the cache key, so that different components never make the same key.
+var cacheKeyEscaper = strings.NewReplacer("%", "%25", ":", "%3A")
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -366,13 +369,14 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	keyTok := cacheKeyEscaper.Replace(tok)
+	key.WriteString(keyTok)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
 	}
 
 	if !a.disablePolicyd {
@@ -380,12 +384,12 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(cacheKeyEscaper.Replace(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(cacheKeyEscaper.Replace(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(cacheKeyEscaper.Replace(query))
 		}
 	}
 
@@ -393,7 +397,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	cached, ok := a.cache.Get(key.String())
 	if ok {
 		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
+			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
 		})
 		return cached.(Principal), nil
 	}
@@ -466,7 +470,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
-- 
2.43.0


From e811454750f63d7515da8907bc32785ca2762be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 02/15] fix: do not drop roles of a role certificate whose
 domain and role name concatenate alike

The duplicate check was keyed by domain+roleName, so ("a", "bc") hid ("ab", "c").
---
 authorizerd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 887c7e6..a7318fb 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -508,7 +508,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -516,9 +516,9 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		if _, ok := drcheck[[2]string{domain, roleName}]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[[2]string{domain, roleName}] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From 0581a424cb0a235792ae36659f6bc429d16d54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 03/15] fix: keep policy assertions apart whose role, action
 and resource contain commas

The de-duplication key joined the three with commas, so two different
assertions could share one key and one of them, possibly a deny, was lost.
---
 policy/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..6144c6f 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -333,7 +333,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
+					km := [3]string{ass.Role, ass.Action, ass.Resource}
 					if _, ok := assm.Load(km); !ok {
 						assm.Store(km, ass)
 					} else {
-- 
2.43.0


From cc33adbf993575d7d812d02292aa3c77144158f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 04/15] fix: do not lose a deny assertion to a concurrent allow
 assertion

The policies of a domain are merged concurrently. An allow that found no
entry stored itself later, over a deny stored in between.
---
 policy/daemon.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 6144c6f..d297434 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -334,13 +334,11 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 					return ctx.Err()
 				default:
 					km := [3]string{ass.Role, ass.Action, ass.Resource}
-					if _, ok := assm.Load(km); !ok {
+					if strings.EqualFold("deny", ass.Effect) {
+						// deny policy will override allow policy, and also remove duplication
 						assm.Store(km, ass)
 					} else {
-						// deny policy will override allow policy, and also remove duplication
-						if strings.EqualFold("deny", ass.Effect) {
-							assm.Store(km, ass)
-						}
+						assm.LoadOrStore(km, ass)
 					}
 				}
 			}
-- 
2.43.0


From ffa9b3d1fb96369581ec33fa67bf74a04bf803de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:53 +0000
Subject: [PATCH 05/15] fix: do not cache policies that have already expired

The cache keeps entries stored with a non-positive ttl forever, so a
remembered policy that expired while the server was unreachable became
effective for good.
---
 policy/daemon.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index d297434..2bd2d9f 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -363,6 +363,11 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 			return false
 		}
 
+		ttl := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
+		if ttl <= 0 {
+			return true // already expired, and the cache keeps entries without positive ttl forever
+		}
+
 		var asss []*Assertion
 		if p, ok := rp.Get(ass.Role); ok {
 			asss = p.([]*Assertion)
@@ -374,7 +379,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		} else {
 			asss = []*Assertion{a}
 		}
-		rp.SetWithExpire(ass.Role, asss, sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now))
+		rp.SetWithExpire(ass.Role, asss, ttl)
 
 		glg.Debugf("added assertion to the tmp cache: %+v", ass)
 		return true
-- 
2.43.0


From 13e7cd5197682bde629871f4165ac9d2a3916ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 06/15] fix: do not crash on an unasked 304 Not Modified

With nothing remembered, a 304 answer of the server dereferenced a nil
cache entry. It is an unexpected status like any other.
---
 policy/fetcher.go | 2 +-
 pubkey/daemon.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..fb42c17 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -109,7 +109,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	}()
 
 	// if server responses NotModified, return policy from cache
-	if res.StatusCode == http.StatusNotModified {
+	if res.StatusCode == http.StatusNotModified && tp != nil {
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..97a1879 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -255,7 +255,7 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	}
 
 	// if server return NotModified, return policy from cache
-	if r.StatusCode == http.StatusNotModified {
+	if r.StatusCode == http.StatusNotModified && ok {
 		cache := t.(*confCache)
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
-- 
2.43.0


From 758058c901325bfa8f797c2a173593884a6196af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:51 +0000
Subject: [PATCH 07/15] fix: report JSON null in server responses as an error
 instead of crashing

A null body, policy, assertion or public key became a nil pointer that
was dereferenced.
---
 policy/daemon.go        | 10 ++++++++++
 policy/signed_policy.go |  2 +-
 pubkey/daemon.go        |  7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 2bd2d9f..0e9b596 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -324,11 +324,21 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	eg := errgroup.Group{}
 	assm := new(sync.Map) // assertion map
 
+	if sp.DomainSignedPolicyData.SignedPolicyData.PolicyData == nil {
+		return errors.New("error simplify and cache policy: no policy data")
+	}
+
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
 		pol := policy
+		if pol == nil {
+			return errors.New("error simplify and cache policy: policy is null")
+		}
 		eg.Go(func() error {
 			for _, ass := range pol.Assertions {
+				if ass == nil {
+					return errors.New("assertion is null")
+				}
 				select {
 				case <-ctx.Done():
 					return ctx.Err()
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index 73b9690..b6157d9 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -35,7 +35,7 @@ type SignedPolicy struct {
 // Verify verifies the signed policy and return any errors
 func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 
-	if s.SignedPolicyData == nil {
+	if s == nil || s.SignedPolicyData == nil {
 		return errors.New("no policy data")
 	}
 
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 97a1879..f9e5b76 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -169,6 +169,9 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 		}
 
 		for _, key := range pubKeys.PublicKeys {
+			if key == nil {
+				return errors.New("error decoding key: key is null")
+			}
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
 			if err != nil {
@@ -273,6 +276,10 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
 
+	if sac == nil {
+		return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "public key entries are null")
+	}
+
 	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
 		glg.Warn(errors.Wrap(err, "error io.copy"))
 	}
-- 
2.43.0


From 8a0c69c455bcb4f6e4a66920a0c39405acb0203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:02 +0000
Subject: [PATCH 08/15] fix: expand the placeholders of a mapping rule in one
 pass

Placeholders were replaced one after the other in random map order, so a
request value that contains a placeholder was expanded itself, or not,
and the same request could get different resources.
---
 translator.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..3aed313 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,16 +178,28 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
-			}
-			return rule.Action, replacedRes, nil
+			return rule.Action, expandPlaceholders(rule.Resource, placeholderMap), nil
 		}
 	}
 	return method, path, nil
 }
 
+// expandPlaceholders replaces the placeholders in the resource by their values, in one pass: values are inserted as they are.
+func expandPlaceholders(resource string, values map[string]string) string {
+	placeholders := make([]string, 0, len(values))
+	for placeholder := range values {
+		placeholders = append(placeholders, placeholder)
+	}
+	// a placeholder goes before its own prefixes
+	sort.Sort(sort.Reverse(sort.StringSlice(placeholders)))
+
+	oldnew := make([]string, 0, 2*len(placeholders))
+	for _, placeholder := range placeholders {
+		oldnew = append(oldnew, placeholder, values[placeholder])
+	}
+	return strings.NewReplacer(oldnew...).Replace(resource)
+}
+
 func (r *Rule) isPlaceholder(s string) (bool, error) {
 	if s == placeholderPrefix+placeholderSuffix {
 		return false, errors.New("placeholder is empty")
-- 
2.43.0


From e96177f8bffc87aaae0f2d7d2960d04fec4e175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:13 +0000
Subject: [PATCH 09/15] fix: return successful responses of the retrying
 transport with their body

RoundTrip drained and closed the body of the response it returned, so no
caller could read it, and left the bodies of retried responses open.
---
 client/exp_rt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..30fa85e 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -78,12 +78,15 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 		}
 
 		if responseRetriable(resp) {
+			if cnt+1 < p.maxRetryCount {
+				// this response is not returned
+				io.Copy(ioutil.Discard, resp.Body)
+				resp.Body.Close()
+			}
 			continue
 		}
 
 		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
 		return resp, nil
 	}
 
-- 
2.43.0


From 3ae82fa5d9d03e1d4dc43ee3b5be87be772f87d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:49 +0000
Subject: [PATCH 10/15] fix: forget the ETag of public keys that could not be
 installed

The ETag was remembered before the keys were decoded. After a decoding
failure the next refresh got 304 Not Modified and reported success
without installing any key.
---
 pubkey/daemon.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index f9e5b76..eb47671 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -155,7 +155,13 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 	eg := errgroup.Group{}
 
 	// this function decode and create verifier obj and store to corresponding cache map
-	updConf := func(env AthenzEnv, cache *sync.Map) error {
+	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {
+		defer func() {
+			if err != nil {
+				// the data the ETag stands for may not have been installed, so fetch it in full next time
+				p.eTagCache.Delete(string(env))
+			}
+		}()
 		cm := new(sync.Map)
 		dec := new(authcore.YBase64)
 		pubKeys, upded, err := p.fetchPubKeyEntries(ctx, env)
-- 
2.43.0


From 81d66c5865853f7836e707d442ccdc4bab9e6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:02 +0000
Subject: [PATCH 11/15] fix: forget the ETag of older public keys when new ones
 come without ETag

Otherwise a later 304 Not Modified for the older ETag was taken as
"the installed keys are current" although newer ones were installed.
---
 pubkey/daemon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index eb47671..2be88f3 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -298,6 +298,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else {
+		// the remembered ETag stands for older keys
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0


From 5c5113ce108ebd3358dc09a7055e2da5374b3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:25 +0000
Subject: [PATCH 12/15] fix: always take the signature of a role token from
 after ";s="

A signed text starting with "s=" replaced the signature to be verified.
---
 role/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/role/processor.go b/role/processor.go
index 6aeb539..e571e58 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -64,7 +64,6 @@ func (r *rtp) parseToken(tok string) (*Token, error) {
 
 	rt := &Token{
 		UnsignedToken: st[0],
-		Signature:     st[1],
 	}
 
 	for _, pair := range strings.Split(st[0], ";") {
@@ -76,6 +75,7 @@ func (r *rtp) parseToken(tok string) (*Token, error) {
 			return nil, errors.Wrap(err, "error setting value")
 		}
 	}
+	rt.Signature = st[1] // an "s" in the signed text is not the signature
 
 	return rt, nil
 }
-- 
2.43.0


From b19d6a5c8f979e7b755cf23feaec63a26f8af511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:37 +0000
Subject: [PATCH 13/15] fix: do not crash when a role of another domain expires
 from the policy cache

The role names are given by the policy data. The expiry hook called a nil
fetcher for a role outside of the configured domains.
---
 policy/daemon.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 0e9b596..2f85e15 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -188,7 +188,9 @@ func (p *policyd) Update(ctx context.Context) error {
 		EnableExpiredHook().
 		SetExpiredHook(func(ctx context.Context, key string) {
 			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
+			if f, ok := p.fetchers[strings.Split(key, ":role.")[0]]; ok {
+				fetchAndCachePolicy(ctx, *(p.rolePolicies), f)
+			}
 		})
 
 	// swap pointer
-- 
2.43.0


From dcc73c68f8e045eda66e8f1befc97af3b72aa72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 14/15] fix: report a missing key provider as an error instead
 of crashing

With the public key or JWK daemon disabled the processors and the policy
verifier have no key provider, and the first token or policy called nil.
---
 access/processor.go     | 3 +++
 policy/signed_policy.go | 4 ++++
 role/processor.go       | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/access/processor.go b/access/processor.go
index 3008aa4..4f9f8a3 100644
--- a/access/processor.go
+++ b/access/processor.go
@@ -203,6 +203,9 @@ func (a *atp) keyFunc(token *jwt.Token) (interface{}, error) {
 		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
 	}
 
+	if a.jwkp == nil {
+		return nil, errors.New("no jwk provider")
+	}
 	key := a.jwkp(keyID, jwkSetURL)
 
 	if key == nil {
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index b6157d9..7764c05 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -48,6 +48,10 @@ func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 		return fmt.Errorf("policy already expired at %s", s.SignedPolicyData.Expires.Time.String())
 	}
 
+	if pkp == nil {
+		return errors.New("no public key provider")
+	}
+
 	// verify signed policy data
 	ver := pkp(pubkey.EnvZTS, s.KeyId)
 	if ver == nil {
diff --git a/role/processor.go b/role/processor.go
index e571e58..1acc928 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -84,6 +84,9 @@ func (r *rtp) validate(rt *Token) error {
 	if rt.Expired() {
 		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
 	}
+	if r.pkp == nil {
+		return errors.New("no public key provider")
+	}
 	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
 	if ver == nil {
 		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
-- 
2.43.0


From ce839f46ed0a914f9674689361a03bc1f1c56011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 15/15] fix: validating a mapping rule again forgets the
 placeholders it compiled before

---
 translator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/translator.go b/translator.go
index 3aed313..b1327f2 100644
--- a/translator.go
+++ b/translator.go
@@ -89,6 +89,9 @@ func (mr *MappingRules) validate() error {
 			// For example, `rule.Path` assumes a string like `/path1/path2?param=value`
 			pathQuery := strings.SplitN(rule.Path, "?", 2)
 
+			// forget what an earlier validation of the rule compiled
+			rules[i].queryValueMap = make(map[string]param)
+
 			splitPaths := strings.Split(pathQuery[0], "/")
 			rules[i].splitPaths = make([]param, len(splitPaths))
 			for j, path := range splitPaths {
@@ -102,7 +105,6 @@ func (mr *MappingRules) validate() error {
 				}
 			}
 
-			rules[i].queryValueMap = make(map[string]param)
 			// No query parameter
 			if len(pathQuery) == 1 {
 				continue
-- 
2.43.0

