package oauth2

import (
	"io/ioutil"
	"net/http"
)

// vfWire turns an outgoing request into the one a server receives: method,
// URL, headers and the body bytes.
func vfWire(r *http.Request) *http.Request {
	var data []byte
	if r.Body != nil {
		data, _ = ioutil.ReadAll(r.Body)
	}
	h := http.Header{}
	for k, v := range r.Header {
		h[k] = append([]string{}, v...)
	}
	u := *r.URL
	u.Scheme, u.Host, u.User = "", "", nil
	return &http.Request{Method: r.Method, URL: &u, Header: h, Host: r.Host, Body: &vfBody{data: data}, ContentLength: int64(len(data))}
}

// vfReqStr yields one field of a request: short arbitrary bytes, or longer
// ones, or a fixed mix of specials.
func vfReqStr(n int) string {
	switch vfChoice("regime", 5) {
	case 4:
		return vfLong("long", 1100)
	case 1:
		return "a b&c=d;e+f%41%zz\"<>\x00\xff\u00e9/?#:@"
	case 2:
		return vfStringIn("lv", 33, 33, "abcdefgh-_.~") + vfString("tail", 0, 1)
	case 3:
		return ""
	}
	return vfString("v", 1, n)
}

// A token request built for the client is read back by the server's parser
// with every field as it was given: built, sent and parsed.
// bounds: one of 9 fields at a time of 1-2 (thorough: 1-3) arbitrary bytes, 33-34 bytes, 70, 300 or 1100 bytes with one arbitrary byte, a fixed mix of specials, or empty, the others present or absent; client id without colon; redirect URI from 6 kinds
// reach: ok no-grant no-client
func vfH_P25_token() {
	n := 2
	if vfThorough() {
		n = 3
	}
	rq := TokenRequest{ClientID: "c1", GrantType: "password"}
	if vfBool("full") {
		rq = TokenRequest{GrantType: "password", Scope: Scope{"x", "y"}, ClientID: "c1", ClientSecret: "s1", Username: "u1",
			Password: "p1", RefreshToken: "rt", RedirectURI: "http://r1/cb?a=b&c=%20", Code: "k"}
	}
	switch vfChoice("field", 9) {
	case 0:
		rq.GrantType = vfReqStr(n)
	case 1:
		rq.ClientID = vfReqStr(n)
		vfNoColon(rq.ClientID)
	case 2:
		rq.ClientSecret = vfReqStr(n)
	case 3:
		rq.Username = vfReqStr(n)
	case 4:
		rq.Password = vfReqStr(n)
	case 5:
		rq.RefreshToken = vfReqStr(n)
	case 6:
		rq.Code = vfReqStr(n)
	case 7:
		rq.Scope = vfScopeN("sc", 2, 2)
	case 8:
		u := []string{"", "http://r1/", "https://r1:80/a%2Fb?x=1&y=a+b", "/cb", "my.app:/cb?q=%25", "http://r1/"}
		k := vfChoice("uri", len(u))
		rq.RedirectURI = u[k]
		if k == 5 {
			rq.RedirectURI += vfStringIn("tail", 1, n+1, "ab/?&=+-_.~;,")
		}
	}
	in := rq
	r, err := BuildTokenRequest("http://srv/oauth2/token", rq)
	vfAssert(err == nil, "P25.token-build")
	vfAssert(r.Method == "POST" && r.URL.String() == "http://srv/oauth2/token", "P25.token-target")
	got, err := ParseTokenRequest(vfWire(r))
	if in.GrantType == "" || in.ClientID == "" {
		vfAssert(got == nil, "P25.token-incomplete")
		vfRefusedParse(err, "P25.token-incomplete-error")
		if in.GrantType == "" {
			vfReach("no-grant")
		} else {
			vfReach("no-client")
		}
		return
	}
	vfAssert(err == nil && got != nil, "P25.token-accepted")
	vfAssert(got.GrantType == in.GrantType, "P25.grant-type")
	vfAssert(got.ClientID == in.ClientID, "P25.client-id")
	vfAssert(got.ClientSecret == in.ClientSecret, "P25.client-secret")
	vfAssert(got.Username == in.Username, "P25.username")
	vfAssert(got.Password == in.Password, "P25.password")
	vfAssert(got.RefreshToken == in.RefreshToken, "P25.refresh-token")
	vfAssert(got.Code == in.Code, "P25.code")
	vfAssert(got.RedirectURI == in.RedirectURI, "P25.redirect-uri")
	vfAssert(vfScopeEq(got.Scope, in.Scope), "P25.scope")
	vfReach("ok")
}

// Introspection and revocation requests come back the same way.
// bounds: one of 4 fields at a time of 1-3 (thorough: 1-4) arbitrary bytes, 33-34 bytes, 70, 300 or 1100 bytes with one arbitrary byte, a fixed mix of specials, or empty; client id without colon; with or without client credentials
// reach: ok no-token no-client
func vfH_P25_lookup() {
	n := 3
	if vfThorough() {
		n = 4
	}
	tok, hint, id, sec := "t", "", "c1", "s1"
	if vfBool("full") {
		hint = "access_token"
	}
	switch vfChoice("field", 5) {
	case 0:
		tok = vfReqStr(n)
	case 1:
		hint = vfReqStr(n)
	case 2:
		id = vfReqStr(n)
		vfNoColon(id)
	case 3:
		sec = vfReqStr(n)
	case 4:
		id, sec = "", ""
	}
	var err error
	var a, b, c, d string
	got := false
	if vfBool("introspect") {
		r, berr := BuildIntrospectionRequest("http://srv/i?q=1", IntrospectionRequest{Token: tok, TokenTypeHint: hint, ClientID: id, ClientSecret: sec})
		vfAssert(berr == nil && r.Method == "POST" && r.URL.String() == "http://srv/i?q=1", "P25.lookup-build")
		q, e := ParseIntrospectionRequest(vfWire(r))
		err = e
		if q != nil {
			got, a, b, c, d = true, q.Token, q.TokenTypeHint, q.ClientID, q.ClientSecret
		}
	} else {
		r, berr := BuildRevocationRequest("http://srv/i?q=1", RevocationRequest{Token: tok, TokenTypeHint: hint, ClientID: id, ClientSecret: sec})
		vfAssert(berr == nil && r.Method == "POST" && r.URL.String() == "http://srv/i?q=1", "P25.lookup-build")
		q, e := ParseRevocationRequest(vfWire(r))
		err = e
		if q != nil {
			got, a, b, c, d = true, q.Token, q.TokenTypeHint, q.ClientID, q.ClientSecret
		}
	}
	if tok == "" || (id == "" && sec == "") {
		vfAssert(!got, "P25.lookup-incomplete")
		vfRefusedParse(err, "P25.lookup-incomplete-error")
		if tok == "" {
			vfReach("no-token")
		} else {
			vfReach("no-client")
		}
		return
	}
	vfAssert(err == nil && got, "P25.lookup-accepted")
	vfAssert(a == tok, "P25.lookup-token")
	vfAssert(b == hint, "P25.lookup-hint")
	vfAssert(c == id, "P25.lookup-client-id")
	vfAssert(d == sec, "P25.lookup-client-secret")
	vfReach("ok")
}

// The form values hold exactly the fields that were given, once each, and
// extending one of the returned fields changes no other; credentials travel only in
// the Authorization header, never in the URL or the body.
// bounds: any subset of 7 fields present; secret of 1-3 arbitrary bytes
// reach: values
func vfH_P25_values() {
	rq := TokenRequest{ClientID: "cid9", ClientSecret: "zz" + vfString("sec", 1, 3)}
	n := 0
	var want []vfKV
	for i, k := range []string{"grant_type", "scope", "username", "password", "refresh_token", "redirect_uri", "code"} {
		if !vfBool(k) {
			continue
		}
		v := k + "v"
		n++
		switch i {
		case 0:
			rq.GrantType = v
		case 1:
			rq.Scope = Scope{v, "y"}
			v += " y"
		case 2:
			rq.Username = v
		case 3:
			rq.Password = v
		case 4:
			rq.RefreshToken = v
		case 5:
			rq.RedirectURI = v
		case 6:
			rq.Code = v
		}
		want = append(want, vfKV{k, v})
	}
	vals := TokenRequestValues(rq)
	vfAssert(len(vals) == n, "P25.values-nothing-else")
	for _, kv := range want {
		l := vals[kv.k]
		vfAssert(len(l) == 1 && l[0] == kv.v, "P25.values")
	}
	r, err := BuildTokenRequest("http://srv/t", rq)
	vfAssert(err == nil, "P25.values-build")
	vfAssert(r.URL.String() == "http://srv/t" && r.URL.User == nil, "P25.no-credentials-in-url")
	body, _ := ioutil.ReadAll(r.Body)
	pairs, ok := vfPairs(string(body))
	vfAssert(ok && len(pairs) == n, "P25.body-nothing-else")
	vfAssert(int64(len(body)) == r.ContentLength, "P25.content-length")
	vfAssert(r.Header.Get("Content-Type") == "application/x-www-form-urlencoded", "P25.content-type")
	// the caller may extend one field without touching another
	ext := vfChoice("ext", 8)
	if ext < 7 {
		k := []string{"grant_type", "scope", "username", "password", "refresh_token", "redirect_uri", "code"}[ext]
		vals.Add(k, "more")
		for _, kv := range want {
			l := vals[kv.k]
			vfAssert(l[0] == kv.v, "P25.values-independent")
		}
	}
	vfReach("values")
}

// The same holds for the form values of the other two requests.
// bounds: any subset of the 2 fields present, token and hint of 1-2 arbitrary bytes
// reach: values
func vfH_P25_lookup_values() {
	tok, hint := "", ""
	n := 0
	if vfBool("token") {
		tok = vfString("tok", 1, 2)
		n++
	}
	if vfBool("hint") {
		hint = vfString("hint", 1, 2)
		n++
	}
	var vals map[string][]string
	if vfBool("introspect") {
		vals = IntrospectionRequestValues(IntrospectionRequest{Token: tok, TokenTypeHint: hint, ClientID: "c", ClientSecret: "s"})
	} else {
		vals = RevocationRequestValues(RevocationRequest{Token: tok, TokenTypeHint: hint, ClientID: "c", ClientSecret: "s"})
	}
	vfAssert(len(vals) == n, "P25.lookup-values-nothing-else")
	check := func(p string) {
		if tok != "" {
			vfAssert(len(vals["token"]) >= 1 && vals["token"][0] == tok, p)
		}
		if hint != "" {
			vfAssert(len(vals["token_type_hint"]) >= 1 && vals["token_type_hint"][0] == hint, p)
		}
	}
	check("P25.lookup-values")
	k := []string{"token", "token_type_hint"}[vfChoice("ext", 2)]
	vals[k] = append(vals[k], "more")
	check("P25.lookup-values-independent")
	vfReach("values")
}

// Length does not matter: long fields arrive in full.
// bounds: one of 8 fields of a token request, or token or client secret of an introspection or revocation request, of 70, 300, 1100 or 4200 bytes, one of them (at the start, middle or end) arbitrary; scopes of 40 items
// reach: token introspection revocation
func vfH_P25_long() {
	v := vfLong("v", 4200)
	switch vfChoice("what", 3) {
	case 0:
		rq := TokenRequest{GrantType: "password", Scope: Scope{"x", "y"}, ClientID: "c1", ClientSecret: "s1", Username: "u1",
			Password: "p1", RefreshToken: "rt", RedirectURI: "http://r1/cb?a=b&c=%20", Code: "k"}
		switch vfChoice("field", 8) {
		case 0:
			rq.ClientSecret = v
		case 1:
			rq.Username = v
		case 2:
			rq.Password = v
		case 3:
			rq.RefreshToken = v
		case 4:
			rq.Code = v
		case 5:
			vfAssume(v[0] > ' ' && v[len(v)/2] > ' ' && v[len(v)-1] > ' ')
			vfAssume(vfASCII(v))
			rq.Scope = Scope{"x", v, "y"}
		case 6:
			rq.RedirectURI = "http://r1/cb?q=" + vfPct(vfLongIn("uri", 4200, vfURIChars))
		case 7:
			rq.Scope = vfManyItems(40)
		}
		in := rq
		r, err := BuildTokenRequest("http://srv/oauth2/token", rq)
		vfAssert(err == nil, "P25.long-build")
		got, err := ParseTokenRequest(vfWire(r))
		vfAssert(err == nil && got != nil, "P25.long-accepted")
		vfAssert(got.ClientID == in.ClientID && got.ClientSecret == in.ClientSecret, "P25.long-client")
		vfAssert(got.GrantType == in.GrantType && got.Username == in.Username && got.Password == in.Password, "P25.long-owner")
		vfAssert(got.RefreshToken == in.RefreshToken && got.Code == in.Code, "P25.long-credentials")
		vfAssert(got.RedirectURI == in.RedirectURI, "P25.long-redirect-uri")
		vfAssert(vfScopeEq(got.Scope, in.Scope), "P25.long-scope")
		vfReach("token")
	case 1:
		rq := IntrospectionRequest{Token: v, ClientID: "c1", ClientSecret: "s1", TokenTypeHint: "access_token"}
		if vfBool("secret") {
			rq.Token, rq.ClientSecret = "tk", v
		}
		r, err := BuildIntrospectionRequest("http://srv/i", rq)
		vfAssert(err == nil, "P25.long-introspection-build")
		got, err := ParseIntrospectionRequest(vfWire(r))
		vfAssert(err == nil && got != nil && got.Token == rq.Token && got.ClientSecret == rq.ClientSecret && got.TokenTypeHint == rq.TokenTypeHint && got.ClientID == "c1", "P25.long-introspection")
		vfReach("introspection")
	case 2:
		rq := RevocationRequest{Token: v, ClientID: "c1", ClientSecret: "s1", TokenTypeHint: "access_token"}
		if vfBool("secret") {
			rq.Token, rq.ClientSecret = "tk", v
		}
		r, err := BuildRevocationRequest("http://srv/r", rq)
		vfAssert(err == nil, "P25.long-revocation-build")
		got, err := ParseRevocationRequest(vfWire(r))
		vfAssert(err == nil && got != nil && got.Token == rq.Token && got.ClientSecret == rq.ClientSecret && got.TokenTypeHint == rq.TokenTypeHint && got.ClientID == "c1", "P25.long-revocation")
		vfReach("revocation")
	}
}

// vfManyItems is a scope of n different items, one of them symbolic.
func vfManyItems(n int) Scope {
	var sc Scope
	at := []int{0, n / 2, n - 1}[vfChoice("at", 3)]
	for i := 0; i < n; i++ {
		it := "item" + string(rune('0'+i/100)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
		if i == at {
			it = "item" + vfStringIn("it", 1, 1, vfWord)
		}
		sc = append(sc, it)
	}
	return sc
}

const vfWord = "0123456789abcxyzABC:.-_/"
