package oauth2

import (
	"errors"
	"io"
	"net/http"
	"net/url"
)

// vfErrFields is an error with one field symbolic (or all of them absent).
func vfErrFields(n int, ok func(string) bool) (*Error, Scope) {
	e := &Error{Status: 400, Name: "invalid_request"}
	sym := func() string {
		v := vfString("v", 0, n)
		vfAssume(ok(v))
		return v
	}
	var sc Scope
	switch vfChoice("field", 9) {
	case 0:
		e.Name = sym()
	case 1:
		e.Description = sym()
	case 2:
		e.URI = sym()
	case 3:
		e.Realm = sym()
	case 4:
		e.State = sym()
	case 5:
		it := sym()
		if it != "" {
			sc = Scope{it, "z"}
		}
	case 6:
		e.Description, e.URI, e.Realm, e.State = "d e", "http://e/", "r", "st"
		sc = Scope{"x", "y"}
	case 7:
		sc = Scope{}
	}
	e.Scope = sc
	return e, sc
}

// An error document carries exactly the status, name, description, URI, scope,
// realm and state of the error, its headers, and nothing else; it is marked
// as JSON that must not be cached.
// bounds: one field at a time of 0-3 (thorough: 0-5) bytes of valid ASCII, all fields together, or none; status 400-599 symbolic; no, one or two extra headers
// reach: written headers
func vfH_P21_document() {
	n := 3
	if vfThorough() {
		n = 5
	}
	e, sc := vfErrFields(n, vfJSONSafe)
	e.Status = vfInt("status", 400, 599)
	h := vfChoice("headers", 3)
	if h > 0 {
		e.Headers = map[string]string{"X-One": "1"}
		if h > 1 {
			e.Headers["Www-Authenticate"] = "Basic realm=\"q\""
		}
		vfReach("headers")
	}
	w := vfNewRec()
	err := WriteError(w, e)
	vfAssert(err == nil, "P21.no-error")
	vfAssert(len(w.codes) == 1, "P21.one-response")
	vfAssert(w.codes[0] == e.Status, "P21.status")
	vfAssert(w.get("Content-Type") == "application/json;charset=UTF-8", "P21.content-type")
	vfAssert(w.get("Cache-Control") == "no-store" && w.get("Pragma") == "no-cache", "P21.no-store")
	want := 3 + h
	vfAssert(len(w.snap) == want && !w.has("Location"), "P21.headers-nothing-else")
	if h > 0 {
		vfAssert(w.get("X-One") == "1", "P21.header")
	}
	if h > 1 {
		vfAssert(w.get("Www-Authenticate") == "Basic realm=\"q\"", "P21.header2")
	}
	vfErrDoc(w.body, e, sc, "P21")
	vfReach("written")
}

func vfErrDoc(body []byte, e *Error, sc Scope, p string) {
	name, ok := vfJSONStr(body, "error")
	vfAssert(ok && name == e.Name, p+".name")
	keys := "error"
	if e.Description != "" {
		keys += ",error_description"
		v, ok := vfJSONStr(body, "error_description")
		vfAssert(ok && v == e.Description, p+".description")
	}
	if e.URI != "" {
		keys += ",error_uri"
		v, ok := vfJSONStr(body, "error_uri")
		vfAssert(ok && v == e.URI, p+".uri")
	}
	if e.Realm != "" {
		keys += ",realm"
		v, ok := vfJSONStr(body, "realm")
		vfAssert(ok && v == e.Realm, p+".realm")
	}
	if len(sc) > 0 {
		keys += ",scope"
		want := ""
		for i, it := range sc {
			if i > 0 {
				want += " "
			}
			want += it
		}
		v, ok := vfJSONStr(body, "scope")
		vfAssert(ok && v == want, p+".scope")
	}
	if e.State != "" {
		keys += ",state"
		v, ok := vfJSONStr(body, "state")
		vfAssert(ok && v == e.State, p+".state")
	}
	vfAssert(vfJSONKeys(body) == keys, p+".nothing-else")
}

type vfCustomErr struct{ Name, Description string }

func (e vfCustomErr) Error() string { return e.Name + e.Description }

type vfNetErr struct {
	msg  string
	t, p bool
}

func (e *vfNetErr) Error() string   { return e.msg }
func (e *vfNetErr) Timeout() bool   { return e.t }
func (e *vfNetErr) Temporary() bool { return e.p }

type vfStatusErr struct {
	msg  string
	code int
}

func (e vfStatusErr) Error() string       { return e.msg }
func (e vfStatusErr) StatusCode() int     { return e.code }
func (e vfStatusErr) Description() string { return e.msg }

// Whatever else is passed as an error is answered with a bare 500
// server_error that reveals nothing of it.
// bounds: error messages of 0-4 (thorough: 0-8) arbitrary bytes, 8 error types (with Timeout, Temporary, Unwrap and StatusCode methods among them), as document and as bearer error
// reach: document bearer
func vfH_P21_unknown() {
	n := 4
	if vfThorough() {
		n = 8
	}
	msg := vfString("msg", 0, n)
	var err error
	switch vfChoice("kind", 8) {
	case 0:
		err = errors.New(msg)
	case 1:
		err = vfCustomErr{"invalid_request", msg}
	case 2:
		err = http.ErrBodyNotAllowed
	case 3:
		err = &vfNetErr{msg, vfBool("timeout"), vfBool("temporary")}
	case 4:
		err = &url.Error{Op: "Get", URL: msg, Err: errors.New(msg)}
	case 5:
		err = vfStatusErr{msg, vfInt("code", 200, 599)}
	case 6:
		err = io.ErrUnexpectedEOF
	case 7:
		err = &http.ProtocolError{ErrorString: msg}
	}
	w := vfNewRec()
	if vfBool("bearer") {
		werr := WriteBearerError(w, err)
		vfAssert(werr == nil && len(w.codes) == 1 && w.codes[0] == 500, "P21.bearer-unknown-status")
		vfAssert(len(w.body) == 0 && !w.has("Www-Authenticate"), "P21.bearer-unknown-empty")
		vfReach("bearer")
		return
	}
	werr := WriteError(w, err)
	vfAssert(werr == nil && len(w.codes) == 1 && w.codes[0] == 500, "P21.unknown-status")
	name, ok := vfJSONStr(w.body, "error")
	vfAssert(ok && name == "server_error", "P21.unknown-name")
	vfAssert(vfJSONKeys(w.body) == "error", "P21.unknown-nothing-else")
	vfAssert(len(w.snap) == 3 && w.get("Cache-Control") == "no-store", "P21.unknown-headers")
	vfReach("document")
}

// An error with a redirect URI is reported there instead, in the component
// asked for, with the same fields and its headers.
// bounds: one field at a time of 0-2 (thorough: 0-3) arbitrary bytes, all together, or none; query and fragment; via SetRedirect or the fields
// reach: query fragment
func vfH_P21_redirect() {
	n := 2
	if vfThorough() {
		n = 3
	}
	e, sc := vfErrFields(n, func(string) bool { return true })
	frag := vfBool("frag")
	if vfBool("set") {
		e = e.SetRedirect("http://r1/cb", e.State, frag)
	} else {
		e.RedirectURI, e.UseFragment = "http://r1/cb", frag
	}
	e.Headers = map[string]string{"X-One": "1"}
	w := vfNewRec()
	err := WriteError(w, e)
	var ps []vfKV
	add := func(k, v string) {
		if v != "" {
			ps = append(ps, vfKV{k, v})
		}
	}
	add("error", e.Name)
	add("error_description", e.Description)
	add("error_uri", e.URI)
	add("realm", e.Realm)
	add("state", e.State)
	s := ""
	for i, it := range sc {
		if i > 0 {
			s += " "
		}
		s += it
	}
	add("scope", s)
	vfFidelity(w, err, "http://r1/cb", nil, ps, frag && true, "P21.redirect")
	vfAssert(w.get("X-One") == "1", "P21.redirect-header")
	vfAssert(w.get("Cache-Control") == "no-store", "P21.redirect-no-store")
	if frag {
		vfReach("fragment")
	} else {
		vfReach("query")
	}
}

// Long fields are written in full.
// bounds: one of 6 fields of 70, 300, 1100 or 4200 bytes of valid ASCII, one of them (at the start, middle or end) symbolic
// reach: written
func vfH_P21_long() {
	e := &Error{Status: 400, Name: "invalid_request"}
	v := vfLong("v", 4200)
	vfAssume(vfJSONSafe(v))
	switch vfChoice("field", 6) {
	case 0:
		e.Name = v
	case 1:
		e.Description = v
	case 2:
		e.URI = v
	case 3:
		e.Realm = v
	case 4:
		e.State = v
	case 5:
		e.Scope = Scope{"x", v, "y"}
	}
	w := vfNewRec()
	err := WriteError(w, e)
	vfAssert(err == nil && len(w.codes) == 1 && w.codes[0] == 400, "P21.long-status")
	vfErrDoc(w.body, e, e.Scope, "P21.long")
	vfReach("written")
}

// The parameters of an error hold exactly its fields, each time they are asked
// for, and redirecting it changes nothing else.
// bounds: 6 fields of 0-2 symbolic bytes, all of them present or one missing
// reach: map redirect
func vfH_P21_params() {
	f := [6]string{}
	missing := vfChoice("missing", 7)
	for i := range f {
		if i != missing {
			f[i] = vfStringIn([]string{"a", "b", "c", "d", "e", "f"}[i], 1, 2, "azAZ09-_.")
		}
	}
	e := &Error{Name: f[0], Description: f[1], URI: f[2], Realm: f[3], State: f[4], Status: 400}
	if f[5] != "" {
		e.Scope = Scope{f[5]}
	}
	keys := []string{"error", "error_description", "error_uri", "realm", "state", "scope"}
	if vfBool("redirect") {
		frag := vfBool("fragment")
		q := e.SetRedirect("http://r/", "st", frag)
		vfAssert(q == e && e.RedirectURI == "http://r/" && e.State == "st" && e.UseFragment == frag, "P21.set-redirect")
		vfAssert(e.Name == f[0] && e.Description == f[1] && e.URI == f[2] && e.Realm == f[3] && e.Status == 400 && vfJoin(e.Scope) == f[5], "P21.set-redirect-keeps")
		f[4] = "st"
		vfReach("redirect")
	}
	m := e.Map()
	n := 0
	for i, k := range keys {
		v, ok := m[k]
		vfAssert(v == f[i] && ok == (f[i] != ""), "P21.map-field")
		if ok {
			n++
		}
	}
	vfAssert(len(m) == n, "P21.map-nothing-else")
	m["error"], m["x"] = "overwritten", "y"
	want := ""
	for _, i := range []int{0, 1, 2, 3, 5, 4} {
		if f[i] != "" {
			if want != "" {
				want += ", "
			}
			want += keys[i] + "=\"" + f[i] + "\""
		}
	}
	vfAssert(e.Params() == want, "P21.params")
	vfAssert(e.String() == f[0]+": "+f[1] && e.Error() == e.String(), "P21.printed")
	vfReach("map")
}
