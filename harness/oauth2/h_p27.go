package oauth2

import (
	"errors"
	"io/ioutil"
	"net/http"
)

// vfTrip is a transport that records the request and answers from a script.
type vfTrip struct {
	res   *http.Response
	err   error
	calls int
	req   *http.Request
	body  []byte
}

func (t *vfTrip) RoundTrip(r *http.Request) (*http.Response, error) {
	t.calls++
	t.req = r
	if r.Body != nil {
		t.body, _ = ioutil.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	if t.err != nil {
		return nil, t.err
	}
	t.res.Request = r
	return t.res, nil
}

var vfErrTrip = errors.New("vf transport")

// vfDo runs one of the three client calls and flattens its result: whether a
// response was returned, and the error.
func vfDo(c *Client, op int) (bool, string, error) {
	switch op {
	case 0:
		r, err := c.Authenticate(TokenRequest{GrantType: "password", ClientID: "c1", ClientSecret: "s1", Username: "u1", Password: "p1"})
		if r == nil {
			return false, "", err
		}
		return true, r.AccessToken, err
	case 1:
		r, err := c.Introspect(IntrospectionRequest{Token: "tok", ClientID: "c1", ClientSecret: "s1"})
		if r == nil {
			return false, "", err
		}
		return true, r.ClientID, err
	}
	err := c.Revoke(RevocationRequest{Token: "tok", ClientID: "c1", ClientSecret: "s1"})
	return false, "", err
}

// A client call succeeds exactly when the server answers 200 with an
// acceptable document, and returns that document; any other status is an
// error that carries the status, and the server's error when it sent one;
// transport failures are passed on; the response body is always closed and
// read no further than the limit; exactly one request is sent to the
// configured endpoint.
// bounds: 3 calls; status 200-599 except redirects symbolic; 5 bodies, JSON or not, body failing midway; limits default, 1-30 and 4096; 3 configurations; transport error
// reach: success error plain transport bad-document
func vfH_P27_outcome() {
	op := vfChoice("op", 3)
	cfg := Default("http://srv:8080")
	want := []string{"http://srv:8080/oauth2/token", "http://srv:8080/oauth2/introspect", "http://srv:8080/oauth2/revoke"}[op]
	switch vfChoice("cfg", 3) {
	case 1:
		cfg = ClientConfig{BaseURI: "https://h/base", TokenEndpoint: "/t", IntrospectionEndpoint: "/i?x=1", RevocationEndpoint: "/r"}
		want = []string{"https://h/base/t", "https://h/base/i?x=1", "https://h/base/r"}[op]
	case 2:
		cfg.BaseURI = ""
		cfg.TokenEndpoint, cfg.IntrospectionEndpoint, cfg.RevocationEndpoint = "http://a/t", "http://b/i", "http://c/r"
		want = []string{"http://a/t", "http://b/i", "http://c/r"}[op]
	}
	limit := int64(2048)
	switch vfChoice("limit", 3) {
	case 1:
		limit = 1 + int64(vfChoice("l", 30))
		cfg.ResponseLimit = limit
	case 2:
		limit = 4096
		cfg.ResponseLimit = limit
	}
	status := vfInt("status", 200, 599)
	vfAssume(status < 300 || status >= 400)
	ok := `{"access_token":"at","token_type":"bearer","expires_in":7}`
	if op == 1 {
		ok = `{"active":true,"client_id":"at","token_type":"access_token"}`
	}
	bodies := []string{ok, `{"error":"invalid_grant","error_description":"d"}`, ``, `<html>`, `null`}
	k := vfChoice("body", len(bodies))
	b := &vfBody{data: []byte(bodies[k])}
	failing := vfBool("failing")
	if failing {
		b.err = vfErrTrip
	}
	json := vfBool("json")
	h := http.Header{"Content-Type": []string{"application/json"}}
	if !json {
		h["Content-Type"] = []string{"text/plain"}
	}
	t := &vfTrip{res: &http.Response{StatusCode: status, Status: "599 odd", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: -1}}
	if vfBool("transport") {
		t.err = vfErrTrip
	}
	c := NewClientWithClient(cfg, &http.Client{Transport: t})
	got, val, err := vfDo(c, op)
	vfAssert(t.calls == 1, "P27.one-request")
	vfAssert(t.req.Method == "POST" && t.req.URL.String() == want, "P27.endpoint")
	id, sec, auth := t.req.BasicAuth()
	vfAssert(auth && id == "c1" && sec == "s1", "P27.credentials")
	if t.err != nil {
		vfAssert(!got && err != nil && errors.Is(err, vfErrTrip), "P27.transport-error")
		vfReach("transport")
		return
	}
	vfAssert(b.closed >= 1, "P27.body-closed")
	vfAssert(int64(b.pos) <= limit, "P27.limit")
	if op < 2 {
		vfAssert(got == (err == nil), "P27.result-or-error")
	}
	if status != 200 {
		vfAssert(err != nil, "P27.status-is-error")
		e, isErr := err.(*Error)
		if isErr {
			vfAssert(e.Status == status, "P27.error-status")
		}
		if int64(len(b.data)) <= limit && k == 1 {
			vfAssert(isErr && e.Name == "invalid_grant" && e.Description == "d", "P27.error-document")
			vfReach("error")
		}
		if k == 2 || k == 3 {
			vfAssert(!isErr, "P27.plain-error")
			vfReach("plain")
		}
		return
	}
	if op == 2 {
		vfAssert(err == nil, "P27.revoked")
		vfReach("success")
		return
	}
	fits := int64(len(b.data)) <= limit
	// a failing body is noticed unless the limit ends the reading first
	readOK := !failing || int64(len(b.data)) >= limit
	if json && k == 0 && fits && readOK {
		vfAssert(err == nil && got && val == "at", "P27.success")
		vfReach("success")
		return
	}
	if !json || !readOK || (k == 0 && !fits) || k == 2 || k == 3 {
		vfAssert(!got && err != nil, "P27.bad-document")
		vfReach("bad-document")
	}
}

// A call whose endpoint is no URL fails with an error and sends nothing.
// bounds: 3 calls; 4 unusable base URIs, with or without a custom transport that would succeed
// reach: refused
func vfH_P27_endpoint() {
	op := vfChoice("op", 3)
	base := []string{"http://srv:port", "http://srv/%zz", "http://a b", ":"}[vfChoice("base", 4)]
	t := &vfTrip{res: &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: &vfBody{}, ContentLength: -1}}
	c := NewClientWithClient(Default(base), &http.Client{Transport: t})
	got, _, err := vfDo(c, op)
	vfAssert(!got && err != nil, "P27.endpoint-error")
	vfAssert(t.calls == 0, "P27.endpoint-nothing-sent")
	vfReach("refused")
}

// A document of exactly the limit is accepted, one byte more is refused and
// not read; without a configured limit it is 2048 bytes.
// bounds: both document calls and errors; limits 1024, 2048 (default, by both constructors) and 5000; documents of the limit -1, +0 and +1 bytes
// reach: fits exceeds
func vfH_P27_limit() {
	op := vfChoice("op", 2)
	cfg := Default("http://srv")
	limit := 2048
	switch vfChoice("limit", 3) {
	case 1:
		limit = 1024
		cfg.ResponseLimit = 1024
	case 2:
		limit = 5000
		cfg.ResponseLimit = 5000
	}
	status := 200
	doc := `{"access_token":"at","token_type":"bearer","expires_in":7,"more":"`
	if op == 1 {
		doc = `{"active":true,"client_id":"at","token_type":"access_token","more":"`
	}
	failed := vfBool("failed")
	if failed {
		status = 400
		doc = `{"error":"invalid_grant","error_description":"d","more":"`
	}
	n := limit - 1 + vfChoice("extra", 3)
	for len(doc) < n-2 {
		doc += "x"
	}
	doc += `"}`
	b := &vfBody{data: []byte(doc)}
	h := http.Header{"Content-Type": []string{"application/json"}}
	t := &vfTrip{res: &http.Response{StatusCode: status, Status: "vf", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: -1}}
	c := NewClientWithClient(cfg, &http.Client{Transport: t})
	if vfBool("plain") {
		old := http.DefaultTransport
		http.DefaultTransport = t
		defer func() { http.DefaultTransport = old }()
		c = NewClient(cfg)
	}
	got, val, err := vfDo(c, op)
	vfAssert(b.pos <= limit && b.closed >= 1, "P27.limit-kept")
	e, isErr := err.(*Error)
	if n <= limit {
		if failed {
			vfAssert(!got && isErr && e.Name == "invalid_grant" && e.Status == 400, "P27.limit-error-fits")
		} else {
			vfAssert(got && err == nil && val == "at", "P27.limit-fits")
		}
		vfReach("fits")
		return
	}
	vfAssert(!got && err != nil, "P27.limit-exceeded")
	vfAssert(!isErr || e.Name != "invalid_grant", "P27.limit-error-exceeded")
	vfReach("exceeds")
}
