TECHNIQUE = "contract-based deductive verification of the Go source (SSA to verification conditions, z3/cvc5), with a bounded replay harness for failing inputs"
BASE = "Every obligation generated from the current source of the functions under contract is discharged for all inputs and iterations; trusts the translation from SSA, the models of library functions and the assumptions listed in the evidence. "
NOTES = "Contracts are in /verif/contracts, keyed by function; the verifier is /verif/gvc."
CLAIMS = {
 'C01': {'note': BASE + "Goroutines are executed where they start, their channel messages received in any order; a derived context is done only when cancelled or its parent is; regular expression matching is an uninterpreted function of expression and text."},
 'C02': {'note': BASE + "sync.Map operations are atomic and Range visits every key once; the workers' interleavings are covered by conditions on every single write (only denying assertions overwrite, nothing is removed, keys are the triples)."},
 'C04': {'note': BASE + "strings.Split and strconv.ParseInt are uninterpreted functions of their arguments."},
 'C05': {'note': BASE + "jwt.ParseWithClaims is modelled: key function, claims.Valid and signature must all succeed."},
 'C06': {'note': BASE + "SHA-256, base64 and URL.String are uninterpreted functions; times within 2^61 seconds."},
 'C07': {'note': BASE},
 'C03': {'note': BASE + "The meaning of a regular expression built from anchors, escaped characters, '.' and '.*' is the one documented for Go's regexp."},
 'C08': {'note': BASE + "Key providers, verifiers and json.Marshal are uninterpreted functions."},
 'C09': {'note': BASE + "gache's own expiry (entries with positive lifetime are not returned after it) is trusted."},
 'C10': {'note': BASE + "Goroutines are executed where they start; the join discipline (nothing published before Wait) is an obligation."},
 'C11': {'note': BASE + "Two runs are compared: equal keys given to the cache imply equal requests."},
 'C12': {'note': BASE},
 'C13': {'note': BASE + "The bearer-token extractor of the jwt library is an uninterpreted function; the closures built by Init are verified as function values of its exit state."},
 'C14': {'note': BASE + "URL.String is an uninterpreted function of the URL; the candidate loop invariants find the working maps by their type, not by name."},
 'C15': {'note': BASE + "What url.ParseQuery makes of a query is an uninterpreted function of it; strings.NewReplacer and Replace are functions of their argument lists (the order of the pairs, which the replacer's behaviour depends on, is part of the contract); sorting is a permutation in order."},
 'C16': {'note': BASE + "What url.ParseQuery makes of a query is an uninterpreted function of it; rule slices of different domains do not share arrays."},
 'C17': {'note': BASE + "Decoding of keys (base64, PEM) is an uninterpreted function; the HTTP client is an arbitrary event."},
 'C18': {'note': BASE + "jwk set fetching and key lookup inside a set are uninterpreted functions of their arguments."},
 'C19': {'note': BASE + "Option functions are events at the constructors (any function over its own parameters) and verified one by one as closures; time.ParseDuration is an uninterpreted function of its text. That the policy fetchers verify with policyd's own key provider is bounded (replay harness)."},
 'C20': {'note': BASE},
 'C21': {'note': BASE + "The inner transport is arbitrary; waiting is an event."},
 'C22': {'note': BASE + "Panics considered: nil dereference, failed type assertion, index and slice bounds, division by zero, send on or close of a closed channel, assignment to a nil map, nil function or interface calls and explicit panics, in the repository's own code; the inside of library functions is trusted. Elements of x509.Certificate.URIs are not nil."},
 'C23': {'note': BASE},
}
NA = {
 'C24': "liveness of never-ending loops under real time (periods, delays, channel delivery): postconditions of terminating calls, which is what this deductive family gives here, cannot state it",
}
