package oauth2

func vfSchemeByte(c byte, first bool) bool {
	if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
		return true
	}
	return !first && (c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.')
}

func vfCtl(c byte) bool { return c < 0x20 || c == 0x7f }

// vfAbsolute is an independent necessary condition for an acceptable redirect
// URI: an absolute path or a scheme with something after it, no control bytes
// and no fragment.
func vfAbsolute(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if vfCtl(s[i]) {
			return false
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			return false
		}
	}
	if s[0] == '/' {
		return true
	}
	if s == "*" {
		return true // net/url's request form of OPTIONS
	}
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			return i > 0
		}
		if !vfSchemeByte(s[i], i == 0) {
			return false
		}
	}
	return false
}

func vfRedirParse(which int, raw string) (string, bool, error) {
	if which == 0 {
		r := vfReq("POST", "/authorize")
		vfSet(r, "response_type", "code")
		vfSet(r, "client_id", "c1")
		vfSet(r, "redirect_uri", raw)
		q, err := ParseAuthorizationRequest(r)
		if q == nil {
			return "", false, err
		}
		return q.RedirectURI, true, err
	}
	r := vfReq("POST", "/token")
	vfSet(r, "grant_type", "authorization_code")
	vfSet(r, "client_id", "c1")
	vfSet(r, "redirect_uri", raw)
	q, err := ParseTokenRequest(r)
	if q == nil {
		return "", false, err
	}
	return q.RedirectURI, true, err
}

// A redirect URI is only accepted when it decodes to an absolute URI or an
// absolute path without a fragment and without control characters; it is
// returned exactly as decoded; a missing one is refused by the authorization
// parser and allowed by the token parser; every refusal is an invalid_request.
// bounds: authorization and token parser; redirect_uri of 0-4 (thorough: 0-5) arbitrary bytes, or http://r1/ followed by 0-3 (thorough: 0-4) arbitrary bytes, or 0-2 arbitrary bytes followed by ://r1/cb
// reach: accepted refused missing fragment
func vfH_P19_validate() {
	n := 4
	if vfThorough() {
		n = 5
	}
	which := vfChoice("which", 2)
	raw := ""
	switch vfChoice("shape", 3) {
	case 0:
		raw = vfString("raw", 0, n)
	case 1:
		raw = "http://r1/" + vfString("raw", 0, n-1)
	case 2:
		raw = vfString("raw", 0, 2) + "://r1/cb"
	}
	got, ok, err := vfRedirParse(which, raw)
	dec, dok := vfUnq(raw)
	if !ok {
		vfRefusedParse(err, "P19.refused-error")
		vfAssert(which == 0 || raw != "", "P19.token-missing-allowed")
		vfReach("refused")
		if raw == "" {
			vfReach("missing")
		}
		for i := 0; i < len(dec); i++ {
			if dec[i] == '#' {
				vfReach("fragment")
				break
			}
		}
		return
	}
	vfAssert(err == nil, "P19.accepted-no-error")
	vfAssert(dok && got == dec, "P19.exactly-decoded")
	if got == "" {
		vfAssert(which == 1, "P19.missing-refused")
		return
	}
	vfAssert(vfAbsolute(got), "P19.only-absolute")
	vfReach("accepted")
}

// Every ordinary absolute URI is accepted and returned unchanged, in plain and
// in percent-encoded form.
// bounds: 4 schemes and hosts, a path or query of 0-3 (thorough: 0-4) unreserved characters or separators, plain or encoded once more
// reach: plain encoded
func vfH_P19_accept() {
	n := 3
	if vfThorough() {
		n = 4
	}
	which := vfChoice("which", 2)
	base := []string{"http://r1", "https://example.com:8443/a", "myapp:/", "/local"}[vfChoice("base", 4)]
	tail := vfStringIn("tail", 0, n, "aZ09-._~/?=&")
	uri := base
	if tail != "" {
		uri = base + "/" + tail
	}
	raw := uri
	if vfBool("enc") {
		raw = vfPct(uri)
		vfReach("encoded")
	} else {
		vfReach("plain")
	}
	got, ok, _ := vfRedirParse(which, raw)
	vfAssert(ok, "P19.ordinary-accepted")
	vfAssert(got == uri, "P19.ordinary-unchanged")
}

// The length of a redirect URI does not matter.
// bounds: authorization and token parser; http://r1/ or / followed by 70, 300, 1100 or 4200 bytes, of which the first, middle or last is symbolic out of 15, and optionally a fragment mark or a control character after it
// reach: accepted refused
func vfH_P19_long() {
	which := vfChoice("which", 2)
	uri := []string{"http://r1/", "/", "myapp:/x"}[vfChoice("base", 3)] + vfLongIn("tail", 4200, "aZ09-._~/?=&:@!")
	bad := []string{"", "#", "#x", "\x00", "\x7f"}[vfChoice("bad", 5)]
	uri += bad
	raw := ""
	for i := 0; i < len(uri); i++ { // encodes only what has to be
		c := uri[i]
		switch c {
		case '#':
			raw += "%23"
		case 0:
			raw += "%00"
		case 0x7f:
			raw += "%7F"
		default:
			raw += uri[i : i+1]
		}
	}
	got, ok, err := vfRedirParse(which, raw)
	if bad != "" {
		vfAssert(!ok, "P19.long-bad-refused")
		vfRefusedParse(err, "P19.long-refused-error")
		vfReach("refused")
		return
	}
	vfAssert(ok && got == uri, "P19.long-accepted")
	vfReach("accepted")
}

// vfPct percent-encodes everything but letters and digits.
func vfPct(s string) string {
	const hex = "0123456789ABCDEF"
	r := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			r += s[i : i+1]
		} else {
			r += "%" + hex[c>>4:c>>4+1] + hex[c&15:c&15+1]
		}
	}
	return r
}
