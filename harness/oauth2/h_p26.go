package oauth2

import (
	"errors"
	"io"
	"net/http"
	"strings"
)

// vfResp turns what was written into the response a client receives.
func vfResp(w *vfRec, chunk int) (*http.Response, *vfBody) {
	b := &vfBody{data: w.body, chunk: chunk}
	return &http.Response{StatusCode: w.status(), Status: "vf", Header: w.snap, Body: b, ContentLength: int64(len(w.body))}, b
}

func vfJSONStrN(n int) string {
	s := vfString("v", 0, n)
	vfAssume(vfJSONSafe(s))
	return s
}

// A token response written as a document is read back with every field as it
// was given.
// bounds: one of 4 fields of 0-4 (thorough: 0-6) valid bytes, or a scope of 0-2 items of 1-3 bytes; lifetime -2147483648..2147483647 symbolic; other fields present or absent
// reach: ok
func vfH_P26_token() {
	n := 4
	if vfThorough() {
		n = 6
	}
	r := NewTokenResponse("bearer", "at", 3600)
	if vfBool("full") {
		r.RefreshToken, r.Scope, r.State = "rt", Scope{"x", "y"}, "st"
	}
	switch vfChoice("field", 6) {
	case 0:
		r.TokenType = vfJSONStrN(n)
	case 1:
		r.AccessToken = vfJSONStrN(n)
	case 2:
		r.RefreshToken = vfJSONStrN(n)
	case 3:
		r.State = vfJSONStrN(n)
	case 4:
		r.Scope = vfScopeN("sc", 2, 3)
	case 5:
		r.ExpiresIn = vfInt("exp", -2147483648, 2147483647)
	}
	in := *r
	w := vfNewRec()
	err := WriteTokenResponse(w, r)
	vfAssert(err == nil && len(w.codes) == 1 && w.codes[0] == 200, "P26.token-status")
	vfAssert(w.get("Content-Type") == "application/json;charset=UTF-8" && w.get("Cache-Control") == "no-store" && w.get("Pragma") == "no-cache" && len(w.snap) == 3, "P26.token-headers")
	res, _ := vfResp(w, 0)
	got, err := ParseTokenResponse(res, 2048)
	vfAssert(err == nil && got != nil, "P26.token-parsed")
	vfAssert(got.TokenType == in.TokenType, "P26.token-type")
	vfAssert(got.AccessToken == in.AccessToken, "P26.access-token")
	vfAssert(got.ExpiresIn == in.ExpiresIn, "P26.expires-in")
	vfAssert(got.RefreshToken == in.RefreshToken, "P26.refresh-token")
	vfAssert(got.State == in.State, "P26.state")
	vfAssert(vfScopeEq(got.Scope, in.Scope), "P26.scope")
	vfAssert(got.RedirectURI == "", "P26.no-redirect")
	keys := "access_token,expires_in"
	if in.RefreshToken != "" {
		keys += ",refresh_token"
	}
	if len(in.Scope) > 0 {
		keys += ",scope"
	}
	if in.State != "" {
		keys += ",state"
	}
	keys += ",token_type"
	vfAssert(vfJSONKeys(w.body) == keys, "P26.token-nothing-else")
	vfReach("ok")
}

// The length of a response does not matter, as long as it is within the limit.
// bounds: token, introspection and error responses with every string of 70, 300, 1100 or 4200 bytes, one of them symbolic, and a scope of 3, 17, 40 or 130 items; limit of a megabyte
// reach: token introspection error
func vfH_P26_long() {
	v := vfLongIn("v", 4200, "aZ09-._~ <&'")
	var sc Scope
	for i, n := 0, []int{3, 17, 40, 130}[vfChoice("items", 4)]; i < n; i++ {
		sc = append(sc, "item"+vfDec(i))
	}
	const limit = 1 << 20
	w := vfNewRec()
	switch vfChoice("what", 3) {
	case 0:
		r := NewTokenResponse("bearer", "a"+v, 3600)
		r.RefreshToken, r.State, r.Scope = "r"+v, "s"+v, sc
		vfAssert(WriteTokenResponse(w, r) == nil, "P26.long-written")
		res, _ := vfResp(w, 0)
		got, err := ParseTokenResponse(res, limit)
		vfAssert(err == nil && got != nil, "P26.long-parsed")
		vfAssert(got.AccessToken == "a"+v && got.RefreshToken == "r"+v && got.State == "s"+v && got.ExpiresIn == 3600 && got.TokenType == "bearer", "P26.long-fields")
		vfAssert(vfScopeEq(got.Scope, sc), "P26.long-scope")
		vfReach("token")
	case 1:
		r := &IntrospectionResponse{Active: true, TokenType: "access_token", ClientID: "c" + v, Username: "u" + v, Subject: "s" + v, Audience: "a" + v, Issuer: "i" + v, Identifier: "j" + v, Scope: sc}
		in := *r
		vfAssert(WriteIntrospectionResponse(w, r) == nil, "P26.long-introspection-written")
		res, _ := vfResp(w, 0)
		got, err := ParseIntrospectionResponse(res, limit)
		vfAssert(err == nil && got != nil, "P26.long-introspection-parsed")
		vfAssert(got.ClientID == in.ClientID && got.Username == in.Username && got.Subject == in.Subject && got.Audience == in.Audience && got.Issuer == in.Issuer && got.Identifier == in.Identifier, "P26.long-introspection-fields")
		vfAssert(vfScopeEq(got.Scope, sc), "P26.long-introspection-scope")
		vfReach("introspection")
	case 2:
		e := InvalidRequest("d" + v)
		e.URI, e.State = "http://e/"+v, "s"+v
		e.Scope = sc
		vfAssert(WriteError(w, e) == nil, "P26.long-error-written")
		res, _ := vfResp(w, 0)
		err := ParseRequestError(res, limit)
		got, ok := err.(*Error)
		vfAssert(ok && got.Name == "invalid_request" && got.Status == 400, "P26.long-error-parsed")
		vfAssert(got.Description == "d"+v && got.URI == "http://e/"+v && got.State == "s"+v && vfScopeEq(got.Scope, sc), "P26.long-error-fields")
		vfReach("error")
	}
}

// An introspection response is written and read back the same way; an active
// one with an unknown token type is refused and nothing is written.
// bounds: one of 8 string fields of 0-4 (thorough: 0-6) valid bytes, or a scope, or three instants -2^53..2^53 symbolic; active or not
// reach: ok refused
func vfH_P26_introspection() {
	n := 4
	if vfThorough() {
		n = 6
	}
	r := NewIntrospectionResponse(vfBool("active"), nil, "c1", "u1", "access_token")
	if vfBool("full") {
		*r = IntrospectionResponse{Active: r.Active, Scope: Scope{"x", "y"}, ClientID: "c1", Username: "u1", TokenType: "refresh_token",
			ExpiresAt: 10, IssuedAt: 11, NotBefore: 12, Subject: "sub", Audience: "aud", Issuer: "iss", Identifier: "jti"}
	}
	switch vfChoice("field", 11) {
	case 0:
		r.ClientID = vfJSONStrN(n)
	case 1:
		r.Username = vfJSONStrN(n)
	case 2:
		r.TokenType = vfJSONStrN(n)
		if vfBool("long") {
			r.TokenType = []string{"access_token", "refresh_token"}[vfChoice("base", 2)] + r.TokenType
		}
	case 3:
		r.Subject = vfJSONStrN(n)
	case 4:
		r.Audience = vfJSONStrN(n)
	case 5:
		r.Issuer = vfJSONStrN(n)
	case 6:
		r.Identifier = vfJSONStrN(n)
	case 7:
		r.Scope = vfScopeN("sc", 2, 3)
	case 8:
		r.ExpiresAt = int64(vfInt("t", -9007199254740992, 9007199254740992))
	case 9:
		r.IssuedAt = int64(vfInt("t", -9007199254740992, 9007199254740992))
	case 10:
		r.NotBefore = int64(vfInt("t", -9007199254740992, 9007199254740992))
	}
	in := *r
	w := vfNewRec()
	err := WriteIntrospectionResponse(w, r)
	if in.Active && in.TokenType != "access_token" && in.TokenType != "refresh_token" {
		vfAssert(err != nil, "P26.unknown-type-refused")
		vfAssert(len(w.codes) == 0 && w.writes == 0, "P26.unknown-type-nothing-written")
		vfReach("refused")
		return
	}
	vfAssert(err == nil && len(w.codes) == 1 && w.codes[0] == 200, "P26.introspection-status")
	vfAssert(w.get("Content-Type") == "application/json;charset=UTF-8" && w.get("Cache-Control") == "no-store" && w.get("Pragma") == "no-cache" && len(w.snap) == 3, "P26.introspection-headers")
	res, _ := vfResp(w, 0)
	got, err := ParseIntrospectionResponse(res, 2048)
	vfAssert(err == nil && got != nil, "P26.introspection-parsed")
	vfAssert(got.Active == in.Active, "P26.active")
	vfAssert(vfScopeEq(got.Scope, in.Scope), "P26.introspection-scope")
	vfAssert(got.ClientID == in.ClientID && got.Username == in.Username && got.TokenType == in.TokenType, "P26.introspection-identity")
	vfAssert(got.ExpiresAt == in.ExpiresAt && got.IssuedAt == in.IssuedAt && got.NotBefore == in.NotBefore, "P26.introspection-instants")
	vfAssert(got.Subject == in.Subject && got.Audience == in.Audience && got.Issuer == in.Issuer && got.Identifier == in.Identifier, "P26.introspection-claims")
	act, ok := vfJSONBool(w.body, "active")
	vfAssert(ok && act == in.Active, "P26.active-explicit")
	vfReach("ok")
}

// Extra members survive the way there and back.
// bounds: string values of 0-4 valid bytes, nested objects, lists, booleans
// reach: extra
func vfH_P26_extra() {
	v := vfJSONStrN(4)
	b := vfBool("b")
	r := &IntrospectionResponse{Active: true, TokenType: "access_token",
		Extra: map[string]interface{}{"s": v, "b": b, "o": map[string]interface{}{"k": v}, "l": []interface{}{v, b}}}
	w := vfNewRec()
	vfAssert(WriteIntrospectionResponse(w, r) == nil, "P26.extra-written")
	res, _ := vfResp(w, 0)
	got, err := ParseIntrospectionResponse(res, 2048)
	vfAssert(err == nil && got != nil && len(got.Extra) == 4, "P26.extra-parsed")
	s, ok := got.Extra["s"].(string)
	vfAssert(ok && s == v, "P26.extra-string")
	bb, ok := got.Extra["b"].(bool)
	vfAssert(ok && bb == b, "P26.extra-bool")
	o, ok := got.Extra["o"].(map[string]interface{})
	vfAssert(ok && len(o) == 1 && o["k"] == v, "P26.extra-object")
	l, ok := got.Extra["l"].([]interface{})
	vfAssert(ok && len(l) == 2 && l[0] == v && l[1] == b, "P26.extra-list")
	vfReach("extra")
}

// Responses are only accepted as JSON: any other or malformed content type,
// a body that is no JSON object, or a failing body is an error; the body is
// read no further than the limit.
// bounds: content types from 16 kinds, and application/json with one byte replaced or inserted; 7 bodies; limits 0 to 40 and around the body length; bodies failing after 0-20 bytes; bodies delivered in pieces of 1, 5 or all bytes; announced length right, unknown, or wrong
// reach: accepted wrong-type bad-json truncated failing
func vfH_P26_strict() {
	ct, ctOK := "application/json", true
	body, bodyOK := `{"access_token":"at","token_type":"bearer","expires_in":7}`, true
	if vfBool("introspect") {
		body = `{"active":true,"client_id":"c1","token_type":"access_token"}`
	}
	limit := int64(2048)
	b := &vfBody{chunk: []int{0, 1, 5}[vfChoice("chunk", 3)]}
	label := "accepted"
	switch vfChoice("what", 5) {
	case 0:
		l := []string{"application/json;charset=UTF-8", "Application/JSON", "application/json; charset=\"utf-8\"", "text/json", "application/json5", "text/html",
			"", "application/jwt", "application", "json", "application/json+x", "x/y; application/json", "application/json; x", "application/json; charset", "application/json; x=\"", "application/json; a=1; a=2"}
		k := vfChoice("ct", len(l))
		ct, ctOK = l[k], k < 3
	case 1:
		i := vfChoice("pos", 16)
		c := vfByte("c")
		vfAssume(c != ';' && c|0x20 != ct[i]|0x20)
		if vfBool("insert") {
			vfAssume(i > 0 && c != ' ' && c != '\t')
			ct = ct[:i] + string([]byte{c}) + ct[i:]
		} else {
			ct = ct[:i] + string([]byte{c}) + ct[i+1:]
		}
		// white space around it is no difference, a case change neither
		vfAssume(strings.TrimSpace(ct) == ct)
		ctOK = false
	case 2:
		l := []string{"", "null", "[]", "{", "\"x\"", "{\"access_token\":1,\"active\":1}", "{}x"}
		k := vfChoice("body", len(l))
		body, bodyOK = l[k], k == 1
	case 3:
		limit = int64(vfChoice("limit", 44))
		if limit > 40 {
			limit += int64(len(body)) - 42 // one less, exactly, one more
		}
		bodyOK = limit >= int64(len(body))
		label = "truncated"
	case 4:
		n := vfChoice("fail", 21)
		body = body[:n]
		b.err = []error{io.ErrUnexpectedEOF, errors.New("x")}[vfChoice("err", 2)]
		bodyOK = false
		label = "failing"
	}
	b.data = []byte(body)
	res := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{"Content-Type": []string{ct}}, Body: b}
	res.ContentLength = []int64{int64(len(body)), -1, 0, 1, 2048, 1 << 40}[vfChoice("length", 6)]
	if ct == "" {
		delete(res.Header, "Content-Type")
	}
	var got bool
	var err error
	which := vfBool("asToken")
	if which {
		var t *TokenResponse
		t, err = ParseTokenResponse(res, limit)
		got = t != nil
	} else {
		var t *IntrospectionResponse
		t, err = ParseIntrospectionResponse(res, limit)
		got = t != nil
	}
	vfAssert(got == (err == nil), "P26.result-or-error")
	vfAssert(got == (ctOK && bodyOK), "P26.strict-iff")
	vfAssert(int64(b.pos) <= limit, "P26.limit")
	if got {
		vfReach("accepted")
	} else if !ctOK {
		vfReach("wrong-type")
	} else if label == "accepted" {
		vfReach("bad-json")
	} else {
		vfReach(label)
	}
}

// An error document comes back as that error with the response's status;
// anything else comes back as a plain error naming the status line; the body
// is read no further than the limit.
// bounds: one field at a time of 0-4 (thorough: 0-6) valid bytes, all fields, or none; status 400-599 symbolic; 6 other bodies; limits 0-20 and 2048
// reach: error fallback truncated
func vfH_P26_error() {
	n := 4
	if vfThorough() {
		n = 6
	}
	status := vfInt("status", 400, 599)
	if vfBool("other") {
		l := []string{"", "x", "[1]", "<html>", "\"e\"", "{\"error\":1}"}
		b := &vfBody{data: []byte(l[vfChoice("body", len(l))])}
		res := &http.Response{StatusCode: status, Status: "599 odd", Header: http.Header{}, Body: b}
		err := ParseRequestError(res, 2048)
		vfAssert(err != nil, "P26.fallback-error")
		_, ok := err.(*Error)
		vfAssert(!ok, "P26.fallback-plain")
		vfAssert(strings.Contains(err.Error(), "599 odd"), "P26.fallback-status")
		vfReach("fallback")
		return
	}
	cut := vfBool("cut")
	e, sc := InvalidRequest("d"), Scope(nil)
	if !cut {
		e, sc = vfErrFields(n, vfJSONSafe)
		e.Status = status
	}
	w := vfNewRec()
	vfAssert(WriteError(w, e) == nil, "P26.error-written")
	res, b := vfResp(w, []int{0, 1}[vfChoice("chunk", 2)])
	limit := int64(2048)
	if cut {
		limit = int64(vfChoice("limit", 21))
	}
	err := ParseRequestError(res, limit)
	vfAssert(int64(b.pos) <= limit, "P26.error-limit")
	got, ok := err.(*Error)
	if cut {
		vfAssert(err != nil && !ok, "P26.error-truncated")
		vfReach("truncated")
		return
	}
	vfAssert(ok && got != nil, "P26.error-parsed")
	vfAssert(got.Status == status, "P26.error-status")
	vfAssert(got.Name == e.Name && got.Description == e.Description && got.URI == e.URI && got.Realm == e.Realm && got.State == e.State, "P26.error-fields")
	vfAssert(len(got.Scope) == len(vfItems(sc.String())), "P26.error-scope")
	vfAssert(got.RedirectURI == "" && !got.UseFragment && len(got.Headers) == 0, "P26.error-nothing-else")
	vfReach("error")
}

// A document that cannot be delivered is reported to the caller.
// bounds: token, active and inactive introspection responses and an error document on a connection that fails when written to
// reach: reported
func vfH_P26_undelivered() {
	w := vfNewRec()
	w.fail = io.ErrClosedPipe
	var err error
	switch vfChoice("what", 4) {
	case 0:
		err = WriteTokenResponse(w, NewBearerTokenResponse("at", 3600))
	case 1:
		err = WriteIntrospectionResponse(w, NewIntrospectionResponse(true, nil, "c1", "u1", "access_token"))
	case 2:
		err = WriteIntrospectionResponse(w, NewIntrospectionResponse(false, nil, "", "", ""))
	case 3:
		err = WriteError(w, InvalidRequest("d"))
	}
	vfAssert(err != nil, "P26.undelivered")
	vfReach("reported")
}

// A constructed response holds exactly the given values.
// bounds: strings of 0-3 symbolic bytes, a lifetime of -100..100000, scopes of 0-2 items
// reach: introspection token bearer code redirect
func vfH_P26_construct() {
	a, b, c := vfString("a", 0, 3), vfString("b", 0, 3), vfString("c", 0, 3)
	sc := vfScopeN("sc", 2, 2)
	n := vfInt("n", -100, 100000)
	switch vfChoice("what", 5) {
	case 0:
		on := vfBool("active")
		r := NewIntrospectionResponse(on, sc, a, b, c)
		vfAssert(r.Active == on && r.ClientID == a && r.Username == b && r.TokenType == c && vfScopeEq(r.Scope, sc), "P26.construct-introspection")
		vfAssert(r.ExpiresAt == 0 && r.IssuedAt == 0 && r.NotBefore == 0 && r.Subject+r.Audience+r.Issuer+r.Identifier == "" && len(r.Extra) == 0, "P26.construct-introspection-else")
		vfReach("introspection")
	case 1:
		r := NewTokenResponse(a, b, n)
		vfAssert(r.TokenType == a && r.AccessToken == b && r.ExpiresIn == n, "P26.construct-token")
		vfAssert(r.RefreshToken+r.State+r.RedirectURI == "" && len(r.Scope) == 0, "P26.construct-token-else")
		vfReach("token")
	case 2:
		r := NewBearerTokenResponse(a, n)
		vfAssert(r.TokenType == "bearer" && r.AccessToken == a && r.ExpiresIn == n, "P26.construct-bearer")
		vfAssert(r.RefreshToken+r.State+r.RedirectURI == "" && len(r.Scope) == 0, "P26.construct-bearer-else")
		vfReach("bearer")
	case 3:
		r := NewCodeResponse(a, b, c)
		vfAssert(r.Code == a && r.RedirectURI == b && r.State == c, "P26.construct-code")
		m := r.Map()
		vfAssert(m["code"] == a && m["state"] == c && len(m) <= 2, "P26.code-map")
		_, has := m["state"]
		vfAssert(has == (c != "") && len(m) == 1 || has && len(m) == 2, "P26.code-map-keys")
		vfReach("code")
	case 4:
		n := []int{0, 1, 3600, 100000}[vfChoice("life", 4)]
		r := NewTokenResponse("bearer", a, n)
		r.RefreshToken, r.Scope = c, sc
		q := r.SetRedirect("http://r/", b)
		vfAssert(q == r && r.RedirectURI == "http://r/" && r.State == b, "P26.redirect-set")
		vfAssert(r.AccessToken == a && r.ExpiresIn == n && r.TokenType == "bearer" && r.RefreshToken == c && vfScopeEq(r.Scope, sc), "P26.redirect-keeps")
		m := r.Map()
		vfAssert(m["access_token"] == a && m["token_type"] == "bearer" && m["refresh_token"] == c && m["state"] == b && m["scope"] == vfJoin(sc), "P26.token-map")
		want := 3
		if c != "" {
			want++
		}
		if b != "" {
			want++
		}
		if sc != nil {
			want++
		}
		vfAssert(len(m) == want && m["expires_in"] == vfDec(n), "P26.token-map-keys")
		vfReach("redirect")
	}
}
