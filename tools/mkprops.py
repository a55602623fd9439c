#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Policy decisions: deny wins, allow needs a match, nothing else allows",
  "For any cached policy, domain, list of presented roles, action and resource, a policy check succeeds exactly when at least one presented role has a matching allow assertion and, for every presented role, the first matching assertion in that role's list (deny assertions are listed first) is not a deny; otherwise it fails, with the explicit-deny error when some role is denied and with the no-match error when none matches. On success the reported authorized roles are exactly the presented roles that have such a match. The answer is computed from one policy snapshot and does not depend on the order in which the concurrent per-role checks finish; a cancelled context can turn an answer into an error but never into a success.",
  ["inputs", "schedules", "histories"],
  "every policy table, every role list (empty, duplicated, unknown roles), every action/resource, every completion order of the per-role goroutines, every policy swap during the check",
  "The tests try a few dozen fixed role/assertion tables and one goroutine order per run; they cannot enumerate role lists, assertion lists of any length or interleavings.",
  ["policy/daemon.go"], [("per-role concurrent scan, results joined through a channel", "policy/daemon.go CheckPolicyRoles")],
  [dict(name="rolePolicies", meaning="cache from <domain>:role.<role> to the ordered assertion list", where="policy/daemon.go")],
  ["Daemon.CheckPolicyRoles", "Daemon.CheckPolicy"])

p("C02", "Loading a signed policy loses no assertion and puts denies first",
  "After a signed policy has been loaded without error into an empty table, the table of every role named in it contains one compiled entry for each distinct (role, action, resource) of its assertions - an entry that denies if any assertion with that triple denies and allows otherwise - with every denying entry ahead of every allowing one, and nothing that the policy does not state. This holds for any number of policies and assertions, whatever their strings contain and however the concurrent per-policy workers interleave. If an assertion cannot be compiled the load reports an error.",
  ["inputs", "schedules"],
  "every signed policy (any strings, duplicates, conflicting effects) and every interleaving of the workers that merge it",
  "The tests load a handful of hand-written policies, mostly with one assertion each; merging is racy code whose bad interleavings a test run almost never hits.",
  ["policy/daemon.go", "policy/assertion.go"],
  [("per-policy goroutines merge into a concurrent map keyed by role/action/resource", "policy/daemon.go simplifyAndCachePolicy"), ("deny prepended, allow appended", "policy/daemon.go simplifyAndCachePolicy")],
  None, ["Daemon.GetPolicyCache after Update"])

p("C03", "Assertion patterns: case-insensitive whole-string globs bound to a domain",
  "An assertion compiled from an action, a \"domain:resource\" string and an effect matches an action and a resource exactly when each matches the assertion's lower-cased glob in full, where '*' stands for any run of characters, '?' for exactly one, and every other character - including every regular-expression metacharacter - only for itself (values containing line breaks aside). The domain is the text before the first ':', the resource pattern is everything after it, a resource without ':' is rejected, and the assertion denies exactly when its effect is \"deny\" in any letter case.",
  ["inputs"],
  "every action, resource and effect string, every rune",
  "The tests compile about twenty patterns; a rune that is not escaped, or one branch that drops a character, shows only on inputs they do not contain.",
  ["policy/assertion.go"], [("glob to regexp translation", "policy/assertion.go patternFromGlob"), ("metacharacter table", "policy/assertion.go isRegexMetaCharacter"), ("assertion compilation", "policy/assertion.go NewAssertion")],
  None, ["NewAssertion"])

p("C04", "Role tokens: accepted only when signed, unexpired, and read from signed text",
  "A role token is accepted only if it is not expired at the time of the check and the ZTS public key named by its key ID exists and verifies its signature over exactly the text before the first \";s=\", with everything after that as the signature. Domain, roles, principal, key ID, expiry and issue time of an accepted token are the last values given for their keys in that signed text, roles being the comma-separated list; text without \";s=\", with a pair lacking '=', or with a non-numeric expiry or issue time is rejected. A token without an expiry is never accepted.",
  ["inputs"],
  "every token string and every key set",
  "Tests use a few well-formed and malformed tokens; field order, repeated keys, extra separators and near-signature text are unbounded.",
  ["role/processor.go", "role/token.go"], [("parsing", "role/processor.go parseToken"), ("signature and expiry validation", "role/processor.go validate"), ("field parsing", "role/token.go SetParams, Expired")],
  None, ["Processor.ParseAndValidateRoleToken"])

p("C05", "Access tokens: verified signature, mandatory expiry, key from its key source",
  "An access token is accepted only if its signature verifies under the key that the key source returns for the token's own key ID and key-set URL headers and its claims are valid now: the expiry is present and in the future, and issued-at and not-before, when present, are not in the future. A token whose key ID is missing or not a string, whose key-set URL is present but not a string, or for which no key is found is rejected. The certificate-binding and client-ID checks are each enforced whenever enabled, whatever the other is, and the claims returned on success are those of the verified token.",
  ["inputs", "configurations"],
  "every token header and claim set, every key source, every combination of enabled checks",
  "Tests sign a handful of tokens with one key and a few header variants; the combinations of headers, claim values and enabled checks are not enumerated.",
  ["access/processor.go", "access/claim.go"], [("token validation", "access/processor.go ParseAndValidateOAuth2AccessToken"), ("key selection", "access/processor.go keyFunc"), ("time claims", "access/claim.go Valid")],
  None, ["Processor.ParseAndValidateOAuth2AccessToken"])

p("C06", "Certificate-bound access tokens only work with their certificate",
  "With certificate binding enabled, an access token is accepted with a client certificate exactly when (a) the token's x5t#S256 confirmation equals the base64url SHA-256 of the certificate, or (b) the token has an x5t#S256 confirmation, the rotation window is non-zero, the certificate's common name is non-empty and equals the token's client ID, and the certificate's not-before plus the backdate allowance lies between the token's issue time and that time plus the window, inclusive, or (c) one of the certificate's URIs is listed as a string in the token's proxy-principals confirmation. Without a client certificate it is always rejected.",
  ["inputs", "configurations"],
  "every certificate, claim set, backdate and window, within 64-bit seconds",
  "Tests sample about thirty combinations; the boundary seconds, mixed-type confirmation lists and lists of any length are not covered.",
  ["access/processor.go"], [("binding check", "access/processor.go validateCertificateBoundAccessToken"), ("rotation window", "access/processor.go validateCertPrincipal")],
  None, ["Processor.ParseAndValidateOAuth2AccessToken"])

p("C07", "Client-ID check: only listed clients of the certificate's common name",
  "With client-ID verification enabled, an access token is accepted only with a client certificate, and exactly when the token's client ID occurs in the list configured for that certificate's common name; an unknown common name or an empty list authorizes nobody.",
  ["inputs", "configurations"],
  "every authorization map, list length, certificate name and client ID",
  "Tests use maps with one or two entries.",
  ["access/processor.go"], [("client ID check", "access/processor.go validateClientID")],
  None, ["Processor.ParseAndValidateOAuth2AccessToken"])

p("C08", "A signed policy is adopted only with both signatures and an unexpired date",
  "Signed policy data passes verification only if it is present, carries an expiry that is still in the future, its serialized signed part verifies against the ZTS key it names, and its serialized policy part verifies against the ZMS key it names. Missing data, missing expiry, an unknown key of either kind or a failing signature is an error, and data that fails verification is neither returned by a fetch nor remembered for later use.",
  ["inputs", "fault_sequences"],
  "every server response and every key set",
  "Tests cover one failure at a time with mock verifiers that ignore their arguments; they cannot show that the right text, signature and key are paired for every policy.",
  ["policy/signed_policy.go", "policy/fetcher.go"], [("signature and expiry checks", "policy/signed_policy.go Verify"), ("verify before caching", "policy/fetcher.go Fetch")],
  None, ["Fetcher.Fetch"])

p("C09", "Expired policy data never authorizes",
  "Every policy entry made available for checks is stored with a strictly positive lifetime equal to the time remaining until the expiry date of the signed policy it came from, so that no entry can be consulted after that date. Data that has already expired when it is loaded - for example a remembered policy reused while the server is unreachable - makes no entry available at all.",
  ["inputs", "histories", "fault_sequences"],
  "every expiry date relative to the moment of loading, every history of fetch failures and reloads",
  "No test loads a policy after its expiry; the cache library treats a non-positive lifetime as 'never expires', so the failure needs time to pass between fetch and reload.",
  ["policy/daemon.go"], [("lifetime computed from the policy expiry", "policy/daemon.go simplifyAndCachePolicy")],
  None, ["Daemon.CheckPolicyRoles after Update"])

p("C10", "Policy refresh: verified or previous data, all domains or none",
  "A fetch returns either freshly downloaded data that passed verification or, when the server answers 'not modified', the remembered data, and it sends the remembered ETag only while it is non-empty and before the data's expiry minus the margin. Fetching with retries makes at most the configured number of retries after the first attempt (zero attempts when that number is below zero), returns the first success, and otherwise returns an error together with the remembered data, if any. A refresh replaces the policy table used for checks only after every configured domain's data was obtained and loaded into the replacement; on any error the table in use is left unchanged.",
  ["inputs", "fault_sequences", "histories"],
  "every sequence of server responses and failures, any number of domains",
  "Tests try one or two responses in sequence with one domain; partial failures among many domains and long failure histories are not enumerated.",
  ["policy/fetcher.go", "policy/daemon.go"], [("conditional fetch", "policy/fetcher.go Fetch"), ("retry", "policy/fetcher.go FetchWithRetry"), ("build then swap", "policy/daemon.go Update, fetchAndCachePolicy")],
  None, ["Fetcher.FetchWithRetry", "Daemon.Update"])

p("C11", "The success cache answers only for the same credential and request",
  "A cached authorization is used only for a request that has the same token text, the same presence, issuer name and subject name of the client certificate, and - when policies are enabled - the same action, resource and (with a translator configured) query as the request that was authorized, whatever characters these contain. Only successful authorizations are stored, with the configured lifetime, and a request with an empty action or resource is rejected before the cache is consulted when policies are enabled.",
  ["inputs", "histories"],
  "every pair of requests, every string, every history of earlier authorizations",
  "The tests check a few cache keys literally; collisions need strings that contain the separator, and two requests.",
  ["authorizerd.go"], [("cache key construction", "authorizerd.go authorize"), ("store on success only", "authorizerd.go authorize")],
  [dict(name="cache", meaning="successful results by request key", where="authorizerd.go")], ["Authorizerd.AuthorizeRoleToken", "Authorizerd.AuthorizeAccessToken"])

p("C12", "Authorization succeeds only through token validation and policy",
  "A token authorization that is not answered from the cache succeeds only if the token processor of the requested kind accepted the token (with the presented certificate, for access tokens) and, unless policies are disabled, the policy check allowed the token's own domain and roles on the action and resource obtained from the translator, if one is configured, with the resource prefix prepended to the resource. The returned principal carries the token's name, roles, domain, issue and expiry times (and client ID for access tokens) and the authorized roles reported by the policy check. Every failure yields an error and no principal.",
  ["inputs", "configurations"],
  "every token kind, request, translator, prefix, policy answer and error",
  "Tests use mocks that return fixed values and mostly ignore their arguments, so a wrong argument passed on goes unnoticed.",
  ["authorizerd.go", "principal.go"], [("pipeline", "authorizerd.go authorize"), ("entry points", "authorizerd.go VerifyRoleToken, AuthorizeRoleToken, VerifyAccessToken, AuthorizeAccessToken")],
  None, ["Authorizerd"])

p("C13", "Request authorization: any enabled credential, otherwise rejection",
  "For an HTTP request, verification succeeds, and authorization returns a principal, exactly when one of the enabled credential checks accepts the request; checks are tried in order and the first acceptance decides, and the principal returned is the one of that check. If all reject, or none is configured, the invalid-credentials error and no principal are returned. The checks that are enabled are exactly those configured (role certificate, access token, role token, in that order), each reading its own part of the request - the TLS peer certificates, the Authorization header with the first peer certificate, the configured role header - with the request's raw query, and enabling none is a construction error.",
  ["inputs", "configurations"],
  "every subset and order of credential checks, every outcome of each",
  "Tests use up to two mock checks; the composition with real header extraction and all configurations is not enumerated.",
  ["authorizerd.go"], [("any-of loop", "authorizerd.go Verify, Authorize"), ("assembly", "authorizerd.go initAuthorizers")],
  None, ["Authorizerd.Verify", "Authorizerd.Authorize"])

p("C14", "Role certificates: every role named in the certificates counts, exactly once",
  "With policies enabled, a role certificate check gathers every (domain, role) pair named by the common names (\"<domain>:role.<role>\") and the prefixed URIs (\"<prefix><domain>/<role>\") of all presented certificates, whatever their strings contain, and succeeds exactly when the policy check allows the action and resource for some domain with the complete list of that domain's distinct roles. If no role is named, or every domain is rejected, it returns an error; with policies disabled it succeeds.",
  ["inputs", "configurations"],
  "every list of certificates, common names, URIs and prefixes",
  "Tests use one or two certificates with ordinary names; name collisions and roles split over several certificates are not covered.",
  ["authorizerd.go"], [("role extraction", "authorizerd.go VerifyRoleCert")],
  None, ["Authorizerd.VerifyRoleCert"])

p("C15", "Request translation is deterministic and literal, first matching rule wins",
  "Translation returns the action and expanded resource of the first rule of the domain whose method equals the request's (ignoring case), whose path has the same segments (a placeholder segment matching anything) and whose query has exactly the rule's parameters, each given once, with equal or placeholder values; if no rule matches, method and path are returned unchanged, and a query that cannot be parsed is an error only once a rule's method and segment count fit. The expanded resource is the rule's resource with each placeholder replaced by the value the request gives it, inserted literally: the result is a function of the request alone and request values are never themselves expanded.",
  ["inputs"],
  "every rule set, method, path and query string",
  "Tests list some fifty request/rule pairs; values that contain placeholders and map-iteration orders are outside them.",
  ["translator.go"], [("matching and expansion", "translator.go Translate")],
  None, ["Translator.Translate"])

p("C16", "Invalid mapping rules are refused, valid ones compiled faithfully",
  "Creating mapping rules fails for absent rules, an empty domain, a domain with absent rules, a rule with an empty method, action or resource, a non-empty path not starting with '/', an empty placeholder, a placeholder used twice in one rule, a query that does not parse, or a query parameter with several values. Otherwise every rule is compiled to exactly its path segments and its query parameters, each marked as a placeholder exactly when it has the form {name}.",
  ["inputs"],
  "every rule set",
  "Tests list a few dozen single-rule sets; rule sets with several domains and rules, where a later rule is the broken one, are not enumerated.",
  ["translator.go"], [("validation", "translator.go validate, isPlaceholder")],
  None, ["NewMappingRules"])

p("C17", "Public keys: exactly the last good key set, per environment",
  "A key lookup returns a verifier only if the key ID is in the cached set of the requested environment (ZTS or ZMS) and then the one stored under that ID. After a refresh that obtained new keys the cached set of each environment holds exactly the keys of that response, decoded - keys no longer listed are gone - and at no moment during the refresh is a key that is in both sets missing. A refresh that fails, at any step, leaves that environment's set unchanged, reports an error and does not make a later refresh of the same data report success without installing it.",
  ["inputs", "fault_sequences", "histories"],
  "every sequence of server responses for the two environments",
  "Tests run one or two refreshes with valid data; a failed decode followed by a 'not modified' answer is a multi-step history.",
  ["pubkey/daemon.go"], [("fetch with ETag", "pubkey/daemon.go fetchPubKeyEntries"), ("replace cached set", "pubkey/daemon.go Update"), ("lookup", "pubkey/daemon.go getPubKey")],
  None, ["Daemon.Update", "Provider"])

p("C18", "Web keys: only from configured URLs, by key ID; refresh is per URL",
  "A web-key lookup returns a key only if the key ID is non-empty and names a usable key in the set last fetched from the URL given by the token, or from the Athenz URL when the token gives none; a URL that is not configured never yields a key. A refresh fetches the Athenz URL and every configured URL, each at most once unless configured repeatedly, replaces the set of each URL that answered and keeps the previous set of each that failed, and reports an error exactly when some URL failed.",
  ["inputs", "fault_sequences"],
  "every key ID and URL, every subset of failing URLs",
  "Tests use one or two URLs and fixed failures.",
  ["jwk/daemon.go"], [("lookup", "jwk/daemon.go getKey"), ("refresh", "jwk/daemon.go Update, isContain")],
  None, ["Daemon.Update", "Provider"])

p("C19", "Configuration reaches the component it configures, and nothing else",
  "Every configuration option sets exactly the parameter it names to the given value, and building the authorizer passes each parameter to the component it belongs to: daemons and processors receive exactly their own URL, domains, durations, retry settings, key sources and client. Durations are parsed or construction fails, empty ones keep the documented default; an Athenz URL may carry an http or https scheme, which is dropped, and any other scheme is refused. A disabled daemon or credential check is not created, and an enabled one is.",
  ["inputs", "configurations"],
  "every option value and every combination of enabled parts",
  "Option tests check the field each one sets, not that nothing else changes, and nothing checks that the constructor passes the right parameter to the right component.",
  ["option.go", "authorizerd.go", "access/option.go", "jwk/option.go", "policy/option.go", "pubkey/option.go", "role/option.go", "internal/url/util.go"],
  [("functional options", "option.go and */option.go"), ("assembly", "authorizerd.go New and */New"), ("scheme handling", "internal/url/util.go")],
  None, ["New"])

p("C20", "Log masking never reveals a signature",
  "The masked form of a role token is the text before its first \";s=\" and the masked form of an access token is the text before its last '.', and in each case a fixed message when there is no such text; an unknown kind of token yields a fixed message. So no masked token contains any part of the token from its signature separator on, and the masked cache key is exactly the part of the key after the token.",
  ["inputs"],
  "every token string, kind and key",
  "Tests use about ten strings; separators at the start, repeated or overlapping are unbounded.",
  ["mask.go"], [("masking", "mask.go maskToken, maskCacheKey")],
  None, ["log output"])

p("C21", "The retrying transport: bounded attempts, intact successful responses",
  "A request through the retrying transport makes at most the configured number of attempts, retries only temporary errors and the statuses 429, 500, 503 and 504, and stops retrying errors once the next wait would exceed the time limit. The first response with another status is returned at once with its body unread and open; a non-temporary error is returned at once; when attempts run out the last response or error is returned.",
  ["inputs", "fault_sequences"],
  "every sequence of transport results, every configuration",
  "There are no tests for this package at all.",
  ["client/exp_rt.go"], [("retry loop", "client/exp_rt.go RoundTrip"), ("retry conditions", "client/exp_rt.go responseRetriable, isTemporary, canRetry")],
  None, ["http.RoundTripper"])

p("C22", "No input from a client or a server crashes the process",
  "No token text, certificate contents, HTTP status, header or JSON body - including JSON null, a 'not modified' answer that was never asked for, and data with missing parts - makes token parsing, claim checking, policy or key fetching and loading, translation or masking panic; such inputs are reported as errors.",
  ["inputs", "fault_sequences"],
  "every byte string a client or server can send, with the components built by their constructors",
  "The tests feed malformed data in a few fixed shapes; an unchecked index, nil dereference or type assertion shows only on the shape nobody wrote down.",
  ["role/processor.go", "access/processor.go", "policy/fetcher.go", "policy/signed_policy.go", "pubkey/daemon.go", "jwk/daemon.go", "mask.go", "translator.go"],
  [("length, nil and type checks at each dereference", "all listed files")],
  None, ["process lifetime"])

p("C23", "Initialization: keys before policies, every enabled part updated, errors kept",
  "Initialization succeeds only if every enabled daemon's update succeeded, and returns an error if any failed or the context was already cancelled; disabled daemons are not touched. Policies are fetched only after the public keys have been updated successfully (or public keys are disabled).",
  ["configurations", "fault_sequences", "schedules"],
  "every combination of enabled daemons, failures and goroutine orders",
  "Tests try single failures with one ordering each.",
  ["authorizerd.go"], [("ordered initialization", "authorizerd.go Init")],
  None, ["Authorizerd.Init"])

p("C24", "Background refresh keeps running and reports failures until cancelled",
  "While its context is alive each background daemon refreshes at every period, retries a failed refresh after the retry delay, delivers every failure on its error channel as long as that is being read, and stops and closes the channel after cancellation.",
  ["schedules", "histories", "fault_sequences"],
  "every schedule of ticks, failures, cancellations and reader speeds",
  "Tests run the loops for a few ticks; liveness over all schedules is out of their reach.",
  ["policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go", "authorizerd.go"], [("refresh loops", "Start functions")],
  None, ["error channels"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        n = x["statement"].count(". ") + 1
        if n > 3: print("sentences", x["id"], n)
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
