package oauth2

import "net/http"

func vfErrName(err error) (string, int) {
	e, ok := err.(*Error)
	if !ok || e == nil {
		return "!", 0
	}
	return e.Name, e.Status
}

func vfRefusedParse(err error, p string) {
	name, status := vfErrName(err)
	vfAssert(name == "invalid_request" && status == http.StatusBadRequest, p)
}

// Only POST is accepted by the token, introspection and revocation parsers,
// only GET and POST by the authorization parser, byte for byte.
// bounds: methods of 0-4 (thorough: 0-7) arbitrary bytes; 4 parsers; otherwise valid requests
// reach: accepted refused
func vfH_P18_method() {
	n := 4
	if vfThorough() {
		n = 7
	}
	m := vfString("m", 0, n)
	r := vfReq(m, "/")
	r.SetBasicAuth("c1", "s1")
	for _, kv := range []vfKV{{"grant_type", "password"}, {"response_type", "token"}, {"client_id", "c1"}, {"redirect_uri", "http://r1/"}, {"token", "t"}} {
		vfSet(r, kv.k, kv.v)
	}
	var err error
	var got bool
	ok := m == "POST"
	switch vfChoice("parser", 4) {
	case 0:
		var q *TokenRequest
		q, err = ParseTokenRequest(r)
		got = q != nil
	case 1:
		var q *IntrospectionRequest
		q, err = ParseIntrospectionRequest(r)
		got = q != nil
	case 2:
		var q *RevocationRequest
		q, err = ParseRevocationRequest(r)
		got = q != nil
	case 3:
		var q *AuthorizationRequest
		q, err = ParseAuthorizationRequest(r)
		got = q != nil
		ok = ok || m == "GET"
	}
	vfAssert(got == ok, "P18.method-iff")
	if ok {
		vfAssert(err == nil, "P18.method-accepted")
		vfReach("accepted")
	} else {
		vfRefusedParse(err, "P18.method-refused")
		vfReach("refused")
	}
}

// vfField puts a parameter into the body, the query, both or nowhere and
// returns the values the body and the combined form carry.
func vfField(r *http.Request, k, v string, where int) (inBody, inForm string) {
	switch where {
	case 0:
		vfSet(r, k, v)
		return v, v
	case 1:
		vfQuery(r, k, v)
		return "", v
	case 2:
		vfSet(r, k, v)
		r.Form[k] = append(r.Form[k], "other")
		return v, v
	}
	return "", ""
}

// A token request is accepted exactly when its body names a grant type and
// the client is named by the Basic header or, without one, by the body; every
// field is returned byte for byte as sent, and nothing is ever taken from the
// query string.
// bounds: one of 10 fields at a time symbolic of 0-4 (thorough: 0-6) bytes or of exactly 33, 80 or 260 bytes, placed in body, query, both or absent; with Basic header (symbolic of 0-4 bytes), or client in the body
// reach: accepted no-grant no-client query-ignored
func vfH_P18_token() {
	n := 4
	if vfThorough() {
		n = 6
	}
	r := vfReq("POST", "/token")
	want := TokenRequest{GrantType: "password", ClientID: "c1", ClientSecret: "s1", Username: "u1", Password: "p1", RefreshToken: "r", Code: "k"}
	fields := []string{"grant_type", "username", "password", "refresh_token", "code", "client_id", "client_secret"}
	f := vfChoice("field", len(fields)+2)
	header := f >= len(fields) || vfBool("header")
	dst := []*string{&want.GrantType, &want.Username, &want.Password, &want.RefreshToken, &want.Code, &want.ClientID, &want.ClientSecret}
	for i, k := range fields {
		if i != f {
			vfSet(r, k, *dst[i])
			continue
		}
		where := vfChoice("where", 4)
		v := vfSized("v", n)
		b, _ := vfField(r, k, v, where)
		*dst[i] = b
		if where == 1 && v != "" {
			vfReach("query-ignored")
		}
	}
	if header {
		id, sec := "c2", "s2"
		if f == len(fields) {
			id = vfString("id", 0, n)
			vfNoColon(id)
		}
		if f == len(fields)+1 {
			sec = vfString("sec", 0, n)
		}
		r.SetBasicAuth(id, sec)
		want.ClientID, want.ClientSecret = id, sec
	}
	got, err := ParseTokenRequest(r)
	if want.GrantType == "" || want.ClientID == "" {
		vfAssert(got == nil, "P18.token-refused")
		vfRefusedParse(err, "P18.token-refused-error")
		if want.GrantType == "" {
			vfReach("no-grant")
		} else {
			vfReach("no-client")
		}
		return
	}
	vfAssert(err == nil && got != nil, "P18.token-accepted")
	vfAssert(got.GrantType == want.GrantType, "P18.token-grant-type")
	vfAssert(got.ClientID == want.ClientID, "P18.token-client-id")
	vfAssert(got.ClientSecret == want.ClientSecret, "P18.token-client-secret")
	vfAssert(got.Username == want.Username, "P18.token-username")
	vfAssert(got.Password == want.Password, "P18.token-password")
	vfAssert(got.RefreshToken == want.RefreshToken, "P18.token-refresh-token")
	vfAssert(got.Code == want.Code, "P18.token-code")
	vfAssert(got.RedirectURI == "" && len(got.Scope) == 0, "P18.token-absent-stays-absent")
	vfReach("accepted")
}

// An introspection or revocation request is accepted exactly when the body
// carries a token and the Basic header is well formed; fields come back byte
// for byte and nothing is taken from the query string or, for the client,
// from the body.
// bounds: token or hint symbolic of 0-4 (thorough: 0-6) bytes or of exactly 33, 80 or 260 bytes, placed in body, query, both or absent; client id and secret symbolic of 0-4 bytes; header present, absent or malformed (0-8 arbitrary bytes)
// reach: accepted no-token no-auth
func vfH_P18_lookup() {
	n := 4
	if vfThorough() {
		n = 6
	}
	r := vfReq("POST", "/introspect")
	tok, hint, id, sec := "t", "h", "c1", "s1"
	auth := true
	vary := vfChoice("vary", 5)
	if vary == 0 {
		tok, _ = vfField(r, "token", vfSized("tok", n), vfChoice("where", 4))
	} else {
		vfSet(r, "token", tok)
	}
	if vary == 1 {
		hint, _ = vfField(r, "token_type_hint", vfSized("hint", n), vfChoice("where", 4))
	} else {
		vfSet(r, "token_type_hint", hint)
	}
	if vary == 2 {
		id = vfString("id", 0, n)
		vfNoColon(id)
		sec = vfString("sec", 0, n)
	}
	vfSet(r, "client_id", "c9")
	vfSet(r, "client_secret", "s9")
	switch vary {
	case 3:
		auth = false
	case 4:
		auth = false
		r.Header["Authorization"] = []string{vfString("hdr", 0, 8)}
	default:
		r.SetBasicAuth(id, sec)
	}
	var err error
	var a, b, c, d string
	got := false
	if vfBool("introspect") {
		q, e := ParseIntrospectionRequest(r)
		err = e
		if q != nil {
			got = true
			a, b, c, d = q.Token, q.TokenTypeHint, q.ClientID, q.ClientSecret
		}
	} else {
		q, e := ParseRevocationRequest(r)
		err = e
		if q != nil {
			got = true
			a, b, c, d = q.Token, q.TokenTypeHint, q.ClientID, q.ClientSecret
		}
	}
	if tok == "" || !auth {
		vfAssert(!got, "P18.lookup-refused")
		vfRefusedParse(err, "P18.lookup-refused-error")
		if tok == "" {
			vfReach("no-token")
		} else {
			vfReach("no-auth")
		}
		return
	}
	vfAssert(err == nil && got, "P18.lookup-accepted")
	vfAssert(a == tok, "P18.lookup-token")
	vfAssert(b == hint, "P18.lookup-hint")
	vfAssert(c == id, "P18.lookup-client-id")
	vfAssert(d == sec, "P18.lookup-client-secret")
	vfReach("accepted")
}

// An authorization request is accepted from query or body exactly when it
// names a response type, a client and a redirect URI; fields come back byte
// for byte.
// bounds: one of 4 fields symbolic of 0-4 (thorough: 0-6) bytes or of exactly 33, 80 or 260 bytes, placed in body, query, both or absent; GET and POST
// reach: accepted refused
func vfH_P18_authorization() {
	n := 4
	if vfThorough() {
		n = 6
	}
	r := vfReq([]string{"GET", "POST"}[vfChoice("m", 2)], "/authorize")
	want := AuthorizationRequest{ResponseType: "token", ClientID: "c1", RedirectURI: "http://r1/", State: "s"}
	fields := []string{"response_type", "client_id", "state", "redirect_uri"}
	dst := []*string{&want.ResponseType, &want.ClientID, &want.State, &want.RedirectURI}
	f := vfChoice("field", 4)
	for i, k := range fields {
		if i != f {
			if vfBool("q") {
				vfQuery(r, k, *dst[i])
			} else {
				vfSet(r, k, *dst[i])
			}
			continue
		}
		where := vfChoice("where", 4)
		v := *dst[i]
		if k != "redirect_uri" {
			v = vfSized("v", n)
		}
		_, *dst[i] = vfField(r, k, v, where)
	}
	got, err := ParseAuthorizationRequest(r)
	if want.ResponseType == "" || want.ClientID == "" || want.RedirectURI == "" {
		vfAssert(got == nil, "P18.authz-refused")
		vfRefusedParse(err, "P18.authz-refused-error")
		vfReach("refused")
		return
	}
	vfAssert(err == nil && got != nil, "P18.authz-accepted")
	vfAssert(got.ResponseType == want.ResponseType, "P18.authz-response-type")
	vfAssert(got.ClientID == want.ClientID, "P18.authz-client-id")
	vfAssert(got.State == want.State, "P18.authz-state")
	vfAssert(got.RedirectURI == want.RedirectURI, "P18.authz-redirect-uri")
	vfAssert(len(got.Scope) == 0, "P18.authz-no-scope")
	vfReach("accepted")
}

// From the raw HTTP request on: a form body is decoded once, by the form
// rules; a malformed body or query is refused; parameters in the query do not
// reach the token request; other content types carry no parameters.
// bounds: a form body with one value of 0-3 (thorough: 0-4) arbitrary raw bytes, decoded by an independent decoder; 4 content types; grant type in the body or only in the query
// reach: decoded malformed wrong-type query-only
func vfH_P18_raw() {
	n := 3
	if vfThorough() {
		n = 4
	}
	raw := vfString("v", 0, n)
	ct := vfChoice("ct", 4)
	ctype := []string{vfForm, vfForm + ";charset=UTF-8", "text/plain", "application/json"}[ct]
	where := vfChoice("where", 2)
	r := vfRawReq("POST", "/token", "", ctype, "username="+raw+"&grant_type=password&client_id=c1")
	if where == 1 {
		r = vfRawReq("POST", "/token", "grant_type=password&client_id=c1", ctype, "username="+raw)
	}
	got, err := ParseTokenRequest(r)
	pairs, ok := vfPairs("username=" + raw)
	for i := 0; i < len(raw); i++ {
		if raw[i] == ';' {
			ok = false // semicolons are refused
		}
		vfAssume(raw[i] != '&')
	}
	if ct >= 2 || where == 1 || !ok {
		vfAssert(got == nil, "P18.raw-refused")
		vfRefusedParse(err, "P18.raw-refused-error")
		if ct >= 2 {
			vfReach("wrong-type")
		} else if where == 1 {
			vfReach("query-only")
		} else {
			vfReach("malformed")
		}
		return
	}
	vfAssert(err == nil && got != nil, "P18.raw-accepted")
	vfAssert(got.Username == pairs[0].v, "P18.raw-value")
	vfAssert(got.GrantType == "password" && got.ClientID == "c1", "P18.raw-others")
	vfReach("decoded")
}

// vfWellFormed decides, by the form rules alone, whether a raw query or form
// body can be decoded: no semicolon, and every percent sign followed by two
// hexadecimal digits within its own key or value.
func vfWellFormed(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == ';' {
			return false
		}
		if s[i] == '%' {
			if i+2 >= len(s) || !vfHexDigit(s[i+1]) || !vfHexDigit(s[i+2]) {
				return false
			}
		}
	}
	return true
}

func vfHexDigit(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// vfComplete is a request that is complete and valid for one of the four
// parsers but for a part that may make it malformed: garbage in the query or
// the form body, a body that cannot be read, or a content type that cannot be
// parsed. It reports whether it is well-formed.
func vfComplete(n int, tok string) (r *http.Request, ep int, ok bool) {
	ep = vfChoice("ep", 4)
	params := []string{
		"response_type=token&client_id=c1&redirect_uri=http%3A%2F%2Fr1%2Fcb&state=st",
		"grant_type=client_credentials&scope=",
		"token=" + tok + "&token_type_hint=access_token",
		"token=" + tok,
	}[ep]
	method, query, body := "POST", "", ""
	inQuery := ep == 0 && vfBool("inQuery")
	if inQuery {
		query = params
		if vfBool("get") {
			method = "GET"
		}
	} else {
		body = params
	}
	ctype := vfForm
	ok = true
	vb := &vfBody{}
	switch vfChoice("bad", 4) {
	case 0: // garbage in the query
		g := vfString("g", 0, n)
		ok = vfWellFormed(g)
		if query != "" {
			query += "&"
		}
		query += "zz=" + g
	case 1: // garbage in the form body
		vfAssume(method == "POST")
		g := vfString("g", 0, n)
		ok = vfWellFormed(g)
		if body != "" {
			body += "&"
		}
		body += "zz=" + g
	case 2: // the body cannot be read to its end
		vfAssume(method == "POST")
		vb.err = http.ErrBodyReadAfterClose
		ok = false
	case 3: // the content type cannot be parsed
		vfAssume(method == "POST")
		ctype = vfForm + "; ="
		ok = false
	}
	r = vfRawReq(method, "/"+[]string{"authorize", "token", "introspect", "revoke"}[ep], query, ctype, "")
	vb.data = []byte(body)
	r.Body = vb
	r.ContentLength = int64(len(body))
	if ep != 0 {
		r.SetBasicAuth("c1", "s1")
	}
	return r, ep, ok
}

// An otherwise complete and valid request is refused exactly when its query
// or form body is malformed, its body cannot be read or its content type
// cannot be parsed, by every parser.
// bounds: 4 parsers; an extra parameter of 0-3 (thorough: 0-5) arbitrary raw bytes in the query or the form body, checked by an independent decoder; a body failing after its data; an unparsable content type; authorization parameters in query (GET, POST) or body
// reach: accepted refused
func vfH_P18_malformed() {
	n := 3
	if vfThorough() {
		n = 5
	}
	r, ep, ok := vfComplete(n, "tk")
	var err error
	var got bool
	switch ep {
	case 0:
		q, e := ParseAuthorizationRequest(r)
		got, err = q != nil, e
		if got {
			vfAssert(q.ResponseType == "token" && q.ClientID == "c1" && q.RedirectURI == "http://r1/cb" && q.State == "st", "P18.malformed-authz-fields")
		}
	case 1:
		q, e := ParseTokenRequest(r)
		got, err = q != nil, e
		if got {
			vfAssert(q.GrantType == "client_credentials" && q.ClientID == "c1" && q.ClientSecret == "s1", "P18.malformed-token-fields")
		}
	case 2:
		q, e := ParseIntrospectionRequest(r)
		got, err = q != nil, e
		if got {
			vfAssert(q.Token == "tk" && q.TokenTypeHint == "access_token" && q.ClientID == "c1", "P18.malformed-introspection-fields")
		}
	case 3:
		q, e := ParseRevocationRequest(r)
		got, err = q != nil, e
		if got {
			vfAssert(q.Token == "tk" && q.TokenTypeHint == "" && q.ClientID == "c1", "P18.malformed-revocation-fields")
		}
	}
	vfAssert(got == ok, "P18.malformed-iff")
	if !ok {
		vfRefusedParse(err, "P18.malformed-error")
		vfReach("refused")
		return
	}
	vfAssert(err == nil, "P18.malformed-accepted")
	vfReach("accepted")
}
