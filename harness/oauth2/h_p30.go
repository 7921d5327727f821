package oauth2

import (
	"net/http"
	"time"
)

// vfLoop is a transport that hands requests to the server in this process.
type vfLoop struct {
	s     *Server
	calls int
}

func (l *vfLoop) RoundTrip(r *http.Request) (*http.Response, error) {
	l.calls++
	in := vfWire(r)
	w := vfServe(l.s, in)
	res, _ := vfResp(w, 0)
	res.Proto, res.ProtoMajor, res.ProtoMinor = "HTTP/1.1", 1, 1
	if res.Header == nil {
		res.Header = http.Header{}
	}
	res.Request = r
	return res, nil
}

func vfLoopClient(s *Server) *Client {
	return NewClientWithClient(Default("http://srv"), &http.Client{Transport: &vfLoop{s: s}})
}

func vfIsError(err error, name string, status int) bool {
	e, ok := err.(*Error)
	return ok && e != nil && e.Name == name && e.Status == status
}

// Client and server understand each other for every value: what the client
// sends is what the server decides on, and what the server decided is what
// the client returns.
// bounds: password grant with one of user name, password, scope, client id, client secret symbolic of 0-3 (thorough: 0-4) bytes, 33-34 bytes, or 70, 300 or 1100 bytes with one arbitrary byte; the tokens are then used, introspected, refreshed and revoked
// reach: granted denied
func vfH_P30_password() {
	n := 2
	if vfThorough() {
		n = 4
	}
	s, _, _, _ := vfWorld()
	n = vfIn(n, 1)
	c := vfLoopClient(s)
	trq := TokenRequest{GrantType: "password", ClientID: "c1", ClientSecret: "s1", Username: "u1", Password: "p1", Scope: Scope{"x"}}
	wantName, wantStatus := "", 0
	switch vfChoice("field", 6) {
	case 0:
		trq.Username = vfReqStr(n)
		if trq.Username != "u1" && !(trq.Username == "u2" && trq.Password == s.Users["u2"].Secret) {
			wantName, wantStatus = "access_denied", 403
		}
	case 1:
		p := vfReqStr(n)
		trq.Password = p
		if vfBool("other") {
			s.Users["u1"].Secret = p
		} else if p != "p1" {
			wantName, wantStatus = "access_denied", 403
		}
	case 2:
		trq.Scope = vfScopeN("sc", 2, 1)
		if !vfIncludes(Scope{"x", "y"}, trq.Scope) {
			wantName, wantStatus = "invalid_scope", 400
		}
	case 3:
		trq.ClientID = vfReqStr(n)
		vfNoColon(trq.ClientID)
		if trq.ClientID != "c1" {
			wantName, wantStatus = "invalid_client", 401
			if trq.ClientID == "" {
				wantName, wantStatus = "invalid_request", 400
			}
		}
	case 4:
		sec := vfReqStr(n)
		trq.ClientSecret = sec
		if vfBool("other") {
			s.Clients["c1"].Secret = sec
		} else if sec != "s1" {
			wantName, wantStatus = "invalid_client", 401
		}
	case 5:
		trq.GrantType = "passworD"
		wantName, wantStatus = "invalid_request", 400
	}
	sn := vfSnapshot(s)
	res, err := c.Authenticate(trq)
	if wantName != "" {
		vfAssert(res == nil && vfIsError(err, wantName, wantStatus), "P30.denied")
		vfAssert(vfSame(sn, s), "P30.denied-no-effect")
		vfReach("denied")
		return
	}
	vfAssert(err == nil && res != nil, "P30.granted")
	vfAssert(res.TokenType == "bearer" && res.ExpiresIn == int(s.Config.AccessTokenLifespan/time.Second), "P30.token-fields")
	vfAssert(vfScopeEq(res.Scope, trq.Scope), "P30.token-scope")
	ok, _ := vfAuthz(s, res.AccessToken, trq.Scope)
	vfAssert(ok, "P30.token-works")
	id, sec := trq.ClientID, trq.ClientSecret
	ir, err := c.Introspect(IntrospectionRequest{Token: res.AccessToken, ClientID: id, ClientSecret: sec})
	vfAssert(err == nil && ir != nil && ir.Active && ir.ClientID == "c1" && ir.Username == trq.Username && ir.TokenType == AccessToken, "P30.introspect")
	vfAssert(vfScopeEq(ir.Scope, trq.Scope), "P30.introspect-scope")
	r2, err := c.Authenticate(TokenRequest{GrantType: RefreshTokenGrantType, ClientID: id, ClientSecret: sec, RefreshToken: res.RefreshToken})
	vfAssert(err == nil && r2 != nil && r2.AccessToken != res.AccessToken && r2.RefreshToken != res.RefreshToken, "P30.refresh")
	r3, err := c.Authenticate(TokenRequest{GrantType: RefreshTokenGrantType, ClientID: id, ClientSecret: sec, RefreshToken: res.RefreshToken})
	vfAssert(r3 == nil && vfIsError(err, "invalid_grant", 400), "P30.refresh-once")
	vfAssert(c.Revoke(RevocationRequest{Token: r2.AccessToken, ClientID: id, ClientSecret: sec}) == nil, "P30.revoke")
	ok, _ = vfAuthz(s, r2.AccessToken, nil)
	vfAssert(!ok, "P30.revoked")
	ir, err = c.Introspect(IntrospectionRequest{Token: r2.AccessToken, ClientID: id, ClientSecret: sec})
	vfAssert(err == nil && ir != nil && !ir.Active && ir.ClientID == "", "P30.introspect-revoked")
	vfReach("granted")
}

// The code flow end to end: the code the user agent is redirected with is
// redeemed by the client with the same redirect URI, and only once.
// bounds: registered redirect URI from 5 kinds or with 1-3 symbolic characters; state of 0-1 arbitrary bytes; the redemption names the same or another redirect URI
// reach: redeemed changed
func vfH_P30_code() {
	s, _, _, _ := vfWorld()
	u := []string{"http://r1/cb", "https://r1:80/a%2Fb?x=1&y=a+b", "/cb", "my.app:/cb?q=%25", "http://r1/cb?"}
	k := vfChoice("uri", len(u)+1)
	redir := "http://r1/"
	if k < len(u) {
		redir = u[k]
	} else {
		redir += vfStringIn("tail", 1, vfIn(3, 1), "ab?&=+-.")
		vfAssume(vfAbsolute(redir))
	}
	s.Clients["c1"].RedirectURI = redir
	r := vfOwnerReq(2)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	vfSet(r, "scope", "x")
	vfSet(r, "state", vfString("st", 0, 1))
	vfSet(r, "redirect_uri", vfPct(redir))
	w := vfServe(s, r)
	vfAssert(w.status() == 303, "P30.code-redirect")
	_, q, _, _, _ := vfLocSplit(w.get("Location"))
	code := ""
	start := 0
	for i := 0; i <= len(q); i++ {
		if i < len(q) && q[i] != '&' {
			continue
		}
		if i-start > 5 && q[start:start+5] == "code=" {
			code = q[start+5 : i]
		}
		start = i + 1
	}
	c := vfLoopClient(s)
	trq := TokenRequest{GrantType: AuthorizationCodeGrantType, ClientID: "c1", ClientSecret: "s1", Code: code, RedirectURI: redir}
	if vfBool("changed") {
		trq.RedirectURI = []string{"", "http://r1/cB", "http://r2/cb"}[vfChoice("to", 3)]
		res, err := c.Authenticate(trq)
		vfAssert(res == nil && vfIsError(err, "invalid_grant", 400), "P30.changed-uri")
		vfReach("changed")
		return
	}
	res, err := c.Authenticate(trq)
	vfAssert(err == nil && res != nil, "P30.redeemed")
	ok, _ := vfAuthz(s, res.AccessToken, Scope{"x"})
	vfAssert(ok, "P30.code-token-works")
	again, err := c.Authenticate(trq)
	vfAssert(again == nil && vfIsError(err, "invalid_grant", 400), "P30.code-once")
	ok, _ = vfAuthz(s, res.AccessToken, nil)
	vfAssert(!ok, "P30.replay-revokes")
	vfReach("redeemed")
}
