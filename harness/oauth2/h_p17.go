package oauth2

import (
	"net/http"
	"net/url"
	"strings"
)

// The endpoint is chosen by the last path segment alone, exactly; every other
// path is answered with 404; each request gets exactly one response.
// bounds: paths of a prefix out of 8 (one of 300 bytes, one of 120 segments) plus a segment that is an endpoint name, an endpoint name with 1-2 symbolic bytes before or after, a case variation, or 0-4 (thorough: 0-6) symbolic bytes; raw path set or not
// reach: authorize token introspect revoke notfound
func vfH_P17_routing() {
	n := 4
	if vfThorough() {
		n = 6
	}
	s, _, _, _ := vfWorld()
	names := []string{"authorize", "token", "introspect", "revoke"}
	name := names[vfChoice("name", 4)]
	long := "/" + strings.Repeat("abcdefgh/", 120)
	pre := []string{"/", "", "/oauth2/", "/a/b/", "//", "/token/", long, "/" + strings.Repeat("x", 300) + "/"}[vfChoice("pre", 8)]
	seg := name
	switch vfChoice("seg", 6) {
	case 1:
		seg = name + vfString("after", 1, 2)
	case 2:
		seg = vfString("before", 1, 2) + name
	case 3:
		seg = vfString("free", 0, n)
	case 4:
		b := []byte(name)
		b[vfChoice("at", len(b))] -= 32
		seg = string(b)
	case 5:
		seg = name + "/"
	}
	path := pre + seg
	want := path
	for i := len(path) - 1; i >= 0; i-- {
		if path[i] == '/' {
			want = path[i+1:]
			break
		}
	}
	r := vfReq("PUT", path) // refused by every endpoint
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P17.one-response")
	vfAssert(vfSame(sn, s), "P17.no-effect")
	known := false
	for i := range names {
		if want == names[i] {
			known = true
			vfReach(names[i])
		}
	}
	if known {
		vfAssert(w.status() == 400, "P17.endpoint-answers")
		name, _ := vfJSONStr(w.body, "error")
		vfAssert(name == "invalid_request", "P17.endpoint-error")
	} else {
		vfAssert(w.status() == 404, "P17.not-found")
		vfReach("notfound")
	}
}

// The four paths reach the four operations.
// bounds: 8 valid requests, 4 prefixes, every hint
// reach: served
func vfH_P17_dispatch() {
	s, k1, r1, a1 := vfWorld()
	op := vfChoice("op", 8)
	r := vfAnyReq(op, k1, r1, a1)
	seg := []string{"token", "token", "token", "token", "introspect", "revoke", "authorize", "authorize"}[op]
	r.URL.Path = []string{"/", "", "/x/y/", "/revoke/"}[vfChoice("pre", 4)] + seg
	if op == 4 || op == 5 {
		if h := []string{"", "access_token", "refresh_token"}[vfChoice("hint", 3)]; h != "" {
			vfSet(r, "token_type_hint", h)
		}
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P17.dispatch-one-response")
	vfAssert(w.status() == 200 || w.status() == 303, "P17.dispatch-served")
	vfDelta(s, sn, op, k1, r1, a1, "P17.dispatch")
	if op == 4 {
		active, ok := vfJSONBool(w.body, "active")
		vfAssert(ok && active, "P17.dispatch-introspects")
	}
	vfReach("served")
}

// vfRawReq is a request as the http package delivers it: nothing parsed yet.
func vfRawReq(method, path, query, ctype, body string) *http.Request {
	r := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{},
		Body: &vfBody{data: []byte(body)}, ContentLength: int64(len(body))}
	if ctype != "" {
		r.Header["Content-Type"] = []string{ctype}
	}
	return r
}

const vfForm = "application/x-www-form-urlencoded"

// Whatever a request contains, the server answers it with exactly one
// response, does not panic, releases its lock and stays usable; a malformed
// request is a client error with an OAuth2 error document.
// bounds: 4 endpoints; method GET, POST or HEAD; query of 0-3 and body of 0-4 (thorough: 0-4 and 0-6) arbitrary bytes; content type form, missing, other or malformed; with or without Basic credentials; body present, absent, or failing midway
// reach: malformed refused
func vfH_P17_garbage() {
	nq, nb := 2, 3
	if vfThorough() {
		nq, nb = 4, 5
	}
	s, _, _, _ := vfWorld()
	nq, nb = vfIn(nq, 1), vfIn(nb, 1)
	path := []string{"/authorize", "/token", "/introspect", "/revoke"}[vfChoice("ep", 4)]
	method := []string{"POST", "GET", "HEAD"}[vfChoice("m", 3)]
	ctype := []string{vfForm, "", "text/plain", "a/b;", vfForm + "; charset=utf-8"}[vfChoice("ct", 5)]
	query, body := "", ""
	switch vfChoice("part", 3) {
	case 0:
		query = vfString("q", 0, nq)
	case 1:
		body = vfString("b", 0, nb)
	}
	r := vfRawReq(method, path, query, ctype, body)
	switch vfChoice("body", 3) {
	case 1:
		r.Body = nil
	case 2:
		r.Body = &vfBody{data: []byte(body), err: http.ErrBodyReadAfterClose}
	}
	if vfBool("auth") {
		r.SetBasicAuth("c1", "s1")
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P17.garbage-one-response")
	vfAssert(w.status() >= 400 && w.status() < 500, "P17.garbage-status")
	name, ok := vfJSONStr(w.body, "error")
	vfAssert(ok && name == "invalid_request", "P17.garbage-error")
	vfAssert(vfSame(sn, s), "P17.garbage-no-effect")
	vfAssert(vfUnlocked(s), "P17.garbage-unlocked")
	vfReach("refused")
	if len(body) > 0 {
		vfReach("malformed")
	}
	// still usable
	w2 := vfServe(s, vfAnyReq(0, nil, nil, nil))
	vfAssert(w2.status() == 200, "P17.still-usable")
}

// A malformed request that is otherwise complete and would succeed is a
// client error at its endpoint and changes nothing; the same request without
// the malformed part succeeds.
// bounds: 4 endpoints; an extra parameter of 0-2 (0-1 in the varied worlds; thorough: 0-4) arbitrary raw bytes in the query or the form body, checked by an independent decoder; a body failing after its data; an unparsable content type
// reach: served refused
func vfH_P17_malformed() {
	n := 2
	if vfThorough() {
		n = 4
	}
	s, _, _, a1 := vfWorld()
	r, ep, ok := vfComplete(vfIn(n, 1), a1.String())
	if ep == 0 && r.Method == "POST" {
		// with the resource owner's consent, so that it would be granted
		extra := "username=u1&password=p1"
		if vb := r.Body.(*vfBody); len(vb.data) > 0 {
			vb.data = append([]byte(extra+"&"), vb.data...)
		} else {
			vb.data = []byte(extra)
		}
		r.ContentLength = int64(len(r.Body.(*vfBody).data))
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P17.malformed-one-response")
	vfAssert(vfUnlocked(s), "P17.malformed-unlocked")
	if ok {
		vfAssert(w.status() == 200 || ep == 0 && w.status() == 303, "P17.malformed-served")
		vfAssert(vfStoresSame(sn, s) == (ep == 2 || r.Method == "GET"), "P17.malformed-effect")
		vfReach("served")
		return
	}
	vfAssert(w.status() == 400, "P17.malformed-status")
	name, found := vfJSONStr(w.body, "error")
	vfAssert(found && name == "invalid_request", "P17.malformed-error")
	vfAssert(vfSame(sn, s), "P17.malformed-no-effect")
	vfReach("refused")
}

// A connection that fails while the answer is written does no harm: one
// answer is attempted, nothing panics, the server is unlocked and usable, and
// the request had its usual effect or none.
// bounds: 9 operations, correct or with a wrong password or client secret, and the resource guard, on a connection that fails when written to
// reach: undelivered
func vfH_P17_hangup() {
	s, k1, r1, a1 := vfWorld()
	op := vfChoice("op", 10)
	bad := vfBool("bad")
	w := vfNewRec()
	w.fail = http.ErrHandlerTimeout
	sn := vfSnapshot(s)
	if op == 9 {
		r := vfReq("GET", "/api")
		if !bad {
			r.Header["Authorization"] = []string{"Bearer " + a1.String()}
		}
		ok := s.Authorize(w, r, nil)
		vfAssert(ok == !bad, "P17.hangup-guard")
		vfAssert(vfSame(sn, s), "P17.hangup-guard-no-effect")
	} else {
		r := vfAnyReq(op, k1, r1, a1)
		if bad {
			vfSet(r, "password", "p9")
			if op < 6 {
				r.SetBasicAuth("c1", "s9")
			}
		}
		s.ServeHTTP(w, r)
		vfAssert(len(w.codes) == 1, "P17.hangup-one-response")
		if bad {
			vfAssert(vfSame(sn, s), "P17.hangup-refused-no-effect")
		}
	}
	vfAssert(vfUnlocked(s), "P17.hangup-unlocked")
	vfReach("undelivered")
	w2 := vfServe(s, vfAnyReq(0, nil, nil, nil))
	vfAssert(w2.status() == 200, "P17.hangup-still-usable")
}
