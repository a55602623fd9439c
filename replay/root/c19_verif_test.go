package authorizerd

import (
	"fmt"
	"net/http"
	"reflect"
	"testing"
	"time"
)

// fields of a component that lives in another package
func fld(v interface{}, name string) reflect.Value {
	r := reflect.ValueOf(v)
	for r.Kind() == reflect.Interface || r.Kind() == reflect.Ptr {
		r = r.Elem()
	}
	return r.FieldByName(name)
}

func TestVerifC19(t *testing.T) {
	h := newVH(t)
	dur := func() string {
		return h.pick("", "", "1s", "2s", "3m", "4h", "5h", "6h1m", "7s", "8s", "9s", "11s", "12s", "13s", "0s")
	}
	for i := 0; h.more(i, 6000); i++ {
		w := map[string]interface{}{
			"url": "athenz.io/zts/v1", "cacheExp": time.Minute, "disPub": false, "disPol": false, "disJwk": false, "header": "Athenz-Role-Auth", "prefix": "athenz://role/", "rt": true, "rc": true,
			"resPrefix": "", "pubRefresh": "", "pubDelay": "", "pubDom": "", "pubExp": "", "pubPurge": "", "polMargin": "", "polRefresh": "", "polPurge": "", "polDelay": "", "polAttempts": 0, "jwkRefresh": "", "jwkDelay": "",
			"atEnable": true, "atThumb": true, "atBack": "1h", "atOff": "1h", "atCID": false,
		}
		var doms, urls []string
		var ids map[string][]string
		var client *http.Client
		var trans Translator
		var opts []Option
		in := ""
		fail := false
		strOpts := map[string]func(string) Option{"pubRefresh": WithPubkeyRefreshPeriod, "pubDelay": WithPubkeyRetryDelay, "pubExp": WithPubkeyETagExpiry, "pubPurge": WithPubkeyETagPurgePeriod, "polMargin": WithPolicyExpiryMargin, "polRefresh": WithPolicyRefreshPeriod, "polPurge": WithPolicyPurgePeriod, "polDelay": WithPolicyRetryDelay, "jwkRefresh": WithJwkRefreshPeriod, "jwkDelay": WithJwkRetryDelay}
		var names []string
		for k := range strOpts {
			names = append(names, k)
		}
		sortStrings(names)
		names = append(names, "pubDom", "url", "cacheExp", "disPub", "enPub", "disPol", "enPol", "disJwk", "enJwk", "header", "prefix", "rt", "rtoff", "rc", "rcoff", "resPrefix", "polAttempts", "at", "doms", "urls", "client", "trans")
		for n := h.Intn(10); n > 0; n-- {
			k := h.pick(names...)
			if f, ok := strOpts[k]; ok {
				v := dur()
				if h.chance(3) {
					v = "bad"
				}
				w[k] = v
				opts = append(opts, f(v))
				in += " " + k + "=" + v
				continue
			}
			in += " " + k
			switch k {
			case "pubDom":
				v := h.pick("", "sys.x", "dom")
				w[k] = v
				opts = append(opts, WithPubkeySysAuthDomain(v))
				in += "=" + v
			case "url":
				v := h.pick("a.b/c", "http://a.b", "https://h:1/z", "ftp://x", "a://b", "https://http://x", "")
				in += "=" + v
				opts = append(opts, WithAthenzURL(v))
				u, ok := trimURL(v)
				fail = fail || !ok
				w[k] = u
			case "cacheExp":
				d := time.Duration(1+h.Intn(5)) * time.Minute
				w[k] = d
				opts = append(opts, WithCacheExp(d))
				in += fmt.Sprint("=", d)
			case "disPub":
				w["disPub"] = true
				opts = append(opts, WithDisablePubkeyd())
			case "enPub":
				w["disPub"] = false
				opts = append(opts, WithEnablePubkeyd())
			case "disPol":
				w["disPol"] = true
				opts = append(opts, WithDisablePolicyd())
			case "enPol":
				w["disPol"] = false
				opts = append(opts, WithEnablePolicyd())
			case "disJwk":
				w["disJwk"] = true
				opts = append(opts, WithDisableJwkd())
			case "enJwk":
				w["disJwk"] = false
				opts = append(opts, WithEnableJwkd())
			case "header":
				v := h.pick("X", "Y-Z")
				w[k] = v
				opts = append(opts, WithRoleAuthHeader(v))
				in += "=" + v
			case "prefix":
				v := h.pick("p://", "", "athenz://r/")
				w[k] = v
				opts = append(opts, WithRoleCertURIPrefix(v))
				in += "=" + v
			case "rt":
				w["rt"] = true
				opts = append(opts, WithEnableRoleToken())
			case "rtoff":
				w["rt"] = false
				opts = append(opts, WithDisableRoleToken())
			case "rc":
				w["rc"] = true
				opts = append(opts, WithEnableRoleCert())
			case "rcoff":
				w["rc"] = false
				opts = append(opts, WithDisableRoleCert())
			case "resPrefix":
				v := h.pick("/x", "y:")
				w[k] = v
				opts = append(opts, WithResourcePrefix(v))
				in += "=" + v
			case "polAttempts":
				v := h.Intn(6) - 1
				w[k] = v
				opts = append(opts, WithPolicyRetryAttempts(v))
				in += fmt.Sprint("=", v)
			case "at":
				e, th, ci := h.chance(60), h.chance(50), h.chance(50)
				b, o := dur(), dur()
				ids = map[string][]string{"cn" + fmt.Sprint(n): {"c"}}
				w["atEnable"], w["atThumb"], w["atCID"], w["atBack"], w["atOff"] = e, th, ci, b, o
				opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(e, th, b, o, ci, ids)))
				in += fmt.Sprintf("=%v,%v,%q,%q,%v,%v", e, th, b, o, ci, ids)
			case "doms":
				doms = [][]string{{"d1"}, {"d1", "d2"}, {}}[h.Intn(3)]
				opts = append(opts, WithAthenzDomains(doms...))
				in += fmt.Sprint("=", doms)
			case "urls":
				urls = [][]string{{"https://u1"}, {"https://u1", "http://u2/x"}, nil}[h.Intn(3)]
				opts = append(opts, WithJwkURLs(urls))
				in += fmt.Sprint("=", urls)
			case "client":
				client = &http.Client{Timeout: time.Duration(n+1) * time.Second}
				if h.chance(30) {
					client = nil
					in += "=nil"
				}
				opts = append(opts, WithHTTPClient(client))
			case "trans":
				trans = &MappingRules{Rules: map[string][]Rule{fmt.Sprint(n): nil}}
				opts = append(opts, WithTranslator(trans))
			}
		}
		d := func(k string, def time.Duration) time.Duration {
			v, _ := w[k].(string)
			if v == "" {
				return def
			}
			x, err := time.ParseDuration(v)
			if err != nil {
				return -1
			}
			return x
		}
		bad := func(ks ...string) bool {
			for _, k := range ks {
				if w[k] == "bad" {
					return true
				}
			}
			return false
		}
		disPub, disPol, disJwk, at := w["disPub"].(bool), w["disPol"].(bool), w["disJwk"].(bool), w["atEnable"].(bool)
		fail = fail || !disPub && bad("pubRefresh", "pubDelay", "pubExp", "pubPurge") || !disPol && bad("polMargin", "polRefresh", "polPurge", "polDelay") || !disJwk && (bad("jwkRefresh", "jwkDelay") || w["url"] == "") || (!at && w["rt"] == false && w["rc"] == false)
		h.run(in, func() {
			z, err := New(opts...)
			h.seen(in)
			if (err != nil) != fail {
				h.fail("construction", in, err, fail)
				return
			}
			if err != nil {
				if z != nil {
					h.fail("authorizer-with-error", in, z, nil)
				}
				return
			}
			a := z.(*authority)
			eq := func(what string, got, want interface{}) {
				if !reflect.DeepEqual(got, want) {
					h.fail(what, in, got, want)
				}
			}
			eq("cacheExp", a.cacheExp, w["cacheExp"])
			eq("header", a.roleAuthHeader, w["header"])
			eq("prefix", a.roleCertURIPrefix, w["prefix"])
			eq("resPrefix", a.resourcePrefix, w["resPrefix"])
			eq("translator", a.translator, trans)
			n := 0
			for _, b := range []bool{w["rc"].(bool), at, w["rt"].(bool)} {
				if b {
					n++
				}
			}
			eq("authorizers", len(a.authorizers), n)
			eq("pubkeyd-created", a.pubkeyd != nil, !disPub)
			eq("policyd-created", a.policyd != nil, !disPol)
			eq("jwkd-created", a.jwkd != nil, !disJwk)
			eq("role-processor-created", a.roleProcessor != nil, w["rt"])
			eq("access-processor-created", a.accessProcessor != nil, at)
			cl := client
			if cl == nil {
				cl = a.client
				eq("default-client", cl.Timeout, 30*time.Second)
			}
			clp := reflect.ValueOf(cl).Pointer()
			if a.pubkeyd != nil {
				p := a.pubkeyd
				eq("pubkey-url", fld(p, "athenzURL").String(), w["url"])
				dm := w["pubDom"]
				if dm == "" {
					dm = "sys.auth"
				}
				eq("pubkey-domain", fld(p, "sysAuthDomain").String(), dm)
				eq("pubkey-refresh", time.Duration(fld(p, "refreshPeriod").Int()), d("pubRefresh", 24*time.Hour))
				eq("pubkey-delay", time.Duration(fld(p, "retryDelay").Int()), d("pubDelay", time.Minute))
				eq("pubkey-etag-expiry", time.Duration(fld(p, "eTagExpiry").Int()), d("pubExp", 168*time.Hour))
				eq("pubkey-etag-purge", time.Duration(fld(p, "eTagPurgePeriod").Int()), d("pubPurge", 84*time.Hour))
				eq("pubkey-client", fld(p, "client").Pointer(), clp)
			}
			if a.policyd != nil {
				p := a.policyd
				eq("policy-url", fld(p, "athenzURL").String(), w["url"])
				eq("policy-margin", time.Duration(fld(p, "expiryMargin").Int()), d("polMargin", 3*time.Hour))
				eq("policy-refresh", time.Duration(fld(p, "refreshPeriod").Int()), d("polRefresh", 30*time.Minute))
				eq("policy-purge", time.Duration(fld(p, "purgePeriod").Int()), d("polPurge", time.Hour))
				eq("policy-delay", time.Duration(fld(p, "retryDelay").Int()), d("polDelay", time.Minute))
				at := w["polAttempts"].(int)
				if at == 0 {
					at = 2
				}
				eq("policy-attempts", int(fld(p, "retryAttempts").Int()), at)
				eq("policy-client", fld(p, "client").Pointer(), clp)
				eq("policy-keys", fld(p, "pkp").IsNil(), disPub)
				var got []string
				l := fld(p, "athenzDomains")
				for k := 0; k < l.Len(); k++ {
					got = append(got, l.Index(k).String())
				}
				eq("policy-domains", fmt.Sprint(got), fmt.Sprint(doms))
			}
			if a.jwkd != nil {
				p := a.jwkd
				eq("jwk-url", fld(p, "athenzJwksURL").String(), "https://"+w["url"].(string)+"/oauth2/keys?rfc=true")
				eq("jwk-refresh", time.Duration(fld(p, "refreshPeriod").Int()), d("jwkRefresh", 24*time.Hour))
				eq("jwk-delay", time.Duration(fld(p, "retryDelay").Int()), d("jwkDelay", time.Minute))
				eq("jwk-client", fld(p, "client").Pointer(), clp)
				var got []string
				l := fld(p, "urls")
				for k := 0; k < l.Len(); k++ {
					got = append(got, l.Index(k).String())
				}
				eq("jwk-urls", fmt.Sprint(got), fmt.Sprint(urls))
			}
			if a.roleProcessor != nil {
				eq("role-keys", fld(a.roleProcessor, "pkp").IsNil(), disPub)
			}
			if a.accessProcessor != nil {
				p := a.accessProcessor
				eq("access-keys", fld(p, "jwkp").IsNil(), disJwk)
				eq("access-binding", fld(p, "enableMTLSCertificateBoundAccessToken").Bool(), w["atThumb"])
				eq("access-client-id", fld(p, "enableVerifyClientID").Bool(), w["atCID"])
				eq("access-backdate", fld(p, "clientCertificateGoBackSeconds").Int(), int64(d("atBack", 0)/time.Second))
				eq("access-window", fld(p, "clientCertificateOffsetSeconds").Int(), int64(d("atOff", 0)/time.Second))
				m := fld(p, "authorizedClientIDs")
				eq("access-clients", m.Len(), len(ids))
				for k := range ids {
					eq("access-clients", m.MapIndex(reflect.ValueOf(k)).IsValid(), true)
				}
			}
		})
	}
	h.finish("random option lists; every parameter of every component is compared with the last value given or the documented default")
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}
