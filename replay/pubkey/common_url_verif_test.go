package pubkey

import "strings"

// trimURL: an http or https scheme is dropped, any other scheme refused.
func trimURL(v string) (string, bool) {
	w := v
	for _, s := range []string{"http://", "https://"} {
		if strings.HasPrefix(v, s) {
			w = v[len(s):]
			break
		}
	}
	i := strings.Index(w, "://")
	if i <= 0 {
		return w, true
	}
	for k, c := range w[:i] {
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !(al || k > 0 && (c >= '0' && c <= '9' || c >= '+' && c <= '.')) {
			return w, true
		}
	}
	return w, false
}
