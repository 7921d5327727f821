package oauth2

// Every answer of an endpoint that carries a credential, a token's state or a
// protocol error forbids caching, says what it is, and redirects hide the
// referrer; no answer of a back-channel endpoint is anything else.
// bounds: 9 operations; nothing varied, or one of 17 request attributes replaced by 0-2 (thorough: 0-3) arbitrary bytes or removed, or one of 6 other registered redirect URIs
// reach: document redirect error
func vfH_P28_headers() {
	n := 2
	if vfThorough() {
		n = 3
	}
	s, k1, r1, a1 := vfWorld()
	op := vfChoice("op", 9)
	r := vfAnyReq(op, k1, r1, a1)
	fields := []string{"grant_type", "response_type", "client_id", "username", "password", "scope", "state", "code", "refresh_token", "redirect_uri", "token", "token_type_hint"}
	f := vfChoice("field", len(fields)+5)
	switch {
	case f < len(fields):
		if vfBool("drop") {
			delete(r.PostForm, fields[f])
			delete(r.Form, fields[f])
		} else {
			vfSet(r, fields[f], vfString("v", 0, n))
		}
	case f == len(fields):
		r.Method = vfString("v", 0, 4)
	case f == len(fields)+1:
		r.SetBasicAuth("c1", vfString("v", 0, n))
	case f == len(fields)+3:
		// other registered redirect URIs
		u := []string{"https://r1/cb", "https://r1:8443/cb?a=b", "/cb", "my.app:/cb", "http://localhost/cb", "http://127.0.0.1:80/"}[vfChoice("uri", 6)]
		s.Clients["c1"].RedirectURI = u
		vfSet(r, "redirect_uri", vfPct(u))
		if vfBool("fail") {
			vfSet(r, "scope", "z")
		}
	case f == len(fields)+2:
		// expired credentials
		for _, m := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens, s.AuthorizationCodes} {
			for _, c := range m {
				c.ExpiresAt = vfNow().Add(-1)
			}
		}
	}
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P28.one-response")
	st := w.status()
	if op == 5 && st == 200 {
		// an acknowledged revocation carries nothing
		vfAssert(len(w.body) == 0, "P28.revocation-empty")
		return
	}
	if op >= 6 && r.Method == "GET" && st == 200 {
		vfAssert(!w.has("Location"), "P28.page-no-redirect")
		return
	}
	vfAssert(w.get("Cache-Control") == "no-store", "P28.no-store")
	vfAssert(w.get("Pragma") == "no-cache", "P28.no-cache")
	if st == 303 {
		vfAssert(op >= 6, "P28.redirect-only-front-channel")
		vfAssert(w.get("Referrer-Policy") == "origin", "P28.referrer")
		vfAssert(len(w.body) == 0, "P28.redirect-no-body")
		vfReach("redirect")
		return
	}
	vfAssert(!w.has("Location"), "P28.no-location")
	vfAssert(w.get("Content-Type") == "application/json;charset=UTF-8", "P28.json")
	if st == 200 {
		vfAssert(op < 6, "P28.document-only-back-channel")
		_, isErr := vfJSONStr(w.body, "error")
		vfAssert(!isErr, "P28.success-no-error")
		vfReach("document")
		return
	}
	name, isErr := vfJSONStr(w.body, "error")
	vfAssert(isErr && name != "", "P28.error-document")
	vfAssert(st == 400 || st == 401 || st == 403, "P28.error-status")
	_, at := vfJSONStr(w.body, "access_token")
	vfAssert(!at, "P28.error-no-credential")
	if name == "invalid_client" {
		vfAssert(st == 401 && w.get("Www-Authenticate") == `Basic realm="OAuth2"`, "P28.basic-challenge")
	} else {
		vfAssert(!w.has("Www-Authenticate"), "P28.no-challenge")
	}
	vfReach("error")
}
