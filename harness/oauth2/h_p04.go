package oauth2

import (
	"net/http"
	"strconv"
	"time"
)

// vfGrantReq fills in an otherwise valid request for the chosen endpoint:
// 0 password, 1 client credentials, 2 code, 3 refresh, 4 introspect, 5 revoke.
func vfGrantReq(op int, k1, r1, a1 *HS256Token) *http.Request {
	var r *http.Request
	switch op {
	case 0:
		r = vfReq("POST", "/oauth2/token")
		vfSet(r, "grant_type", "password")
		vfSet(r, "username", "u1")
		vfSet(r, "password", "p1")
		vfSet(r, "scope", "x")
	case 1:
		r = vfReq("POST", "/oauth2/token")
		vfSet(r, "grant_type", "client_credentials")
		vfSet(r, "scope", "x")
	case 2:
		r = vfReq("POST", "/oauth2/token")
		vfSet(r, "grant_type", "authorization_code")
		vfSet(r, "code", k1.String())
		vfSet(r, "redirect_uri", "http://r1/cb")
	case 3:
		r = vfReq("POST", "/oauth2/token")
		vfSet(r, "grant_type", "refresh_token")
		vfSet(r, "refresh_token", r1.String())
	case 4:
		r = vfReq("POST", "/oauth2/introspect")
		vfSet(r, "token", a1.String())
	case 5:
		r = vfReq("POST", "/oauth2/revoke")
		vfSet(r, "token", a1.String())
	}
	return r
}

// vfWorld is a server with two clients, two users and credentials of each.
func vfWorld() (s *Server, k1, r1, a1 *HS256Token) {
	s = vfNewServer(Scope{"x", "y"})
	now := time.Now()
	s.Clients["c1"] = &ServerEntity{Secret: "s1", Confidential: true, RedirectURI: "http://r1/cb"}
	s.Clients["c2"] = &ServerEntity{Secret: "s2", Confidential: true, RedirectURI: "http://r2/cb"}
	s.Users["u1"] = &ServerEntity{Secret: "p1"}
	s.Users["u2"] = &ServerEntity{Secret: "p2"}
	k1, r1, a1 = vfTok(1), vfTok(2), vfTok(3)
	vfCred(s.AuthorizationCodes, k1, ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, RedirectURI: "http://r1/cb", ExpiresAt: now.Add(time.Minute)})
	vfCred(s.RefreshTokens, r1, ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, ExpiresAt: now.Add(time.Hour)})
	vfCred(s.AccessTokens, a1, ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, ExpiresAt: now.Add(time.Hour)})
	// unrelated credentials of the other client
	vfCred(s.AuthorizationCodes, vfTok(11), ServerCredential{ClientID: "c2", Username: "u2", Scope: Scope{"y"}, RedirectURI: "http://r2/cb", ExpiresAt: now.Add(time.Minute)})
	vfCred(s.RefreshTokens, vfTok(12), ServerCredential{ClientID: "c2", Username: "u2", Scope: Scope{"y"}, ExpiresAt: now.Add(time.Hour)})
	vfCred(s.AccessTokens, vfTok(13), ServerCredential{ClientID: "c2", Username: "u2", Scope: Scope{"y"}, ExpiresAt: now.Add(time.Hour)})
	vfNuisance(s, r1, a1)
	return
}

// vfNuisance varies, one at a time, what must not matter to an operation on
// the main credentials of the world.
func vfNuisance(s *Server, r1, a1 *HS256Token) {
	sig := func(n byte) string { return vfTok(n).SignatureString() }
	vfNuis = vfChoice("nuisance", 11)
	switch vfNuis {
	case 1: // tokens of the client itself
		s.RefreshTokens[r1.SignatureString()].Username = ""
		s.AccessTokens[a1.SignatureString()].Username = ""
	case 2: // the other client acts for the same user, with the same scope
		for _, c := range []*ServerCredential{s.AuthorizationCodes[sig(11)], s.RefreshTokens[sig(12)], s.AccessTokens[sig(13)]} {
			c.Username, c.Scope = "u1", Scope{"x"}
		}
	case 3: // the other client's credentials are spent or expired
		s.AuthorizationCodes[sig(11)].Used = true
		s.RefreshTokens[sig(12)].ExpiresAt = time.Now().Add(-time.Minute)
		s.AccessTokens[sig(13)].ExpiresAt = time.Now().Add(-time.Minute)
	case 4: // tokens descend from some code
		s.RefreshTokens[r1.SignatureString()].Code = sig(11)
		s.AccessTokens[a1.SignatureString()].Code = sig(11)
		s.RefreshTokens[sig(12)].Code = sig(11)
	case 5: // unusual configuration
		s.Config.AccessTokenLifespan, s.Config.RefreshTokenLifespan, s.Config.AuthorizationCodeLifespan = 2*time.Hour, time.Hour, 3*time.Hour
		s.Config.KeyLength = 40
	case 6: // the other client is a public one with the same secret
		s.Clients["c2"].Confidential = false
		s.Clients["c2"].Secret = "s1"
		s.Users["u2"].Secret = "p1"
	case 7: // the clients share their redirect URI and everything else
		s.Clients["c2"].RedirectURI = "http://r1/cb"
		s.AuthorizationCodes[sig(11)].RedirectURI = "http://r1/cb"
	case 8: // siblings: the same client, user, scope and (spent) code
		now := time.Now()
		s.RefreshTokens[r1.SignatureString()].Code = sig(21)
		s.AccessTokens[a1.SignatureString()].Code = sig(21)
		vfCred(s.AuthorizationCodes, vfTok(21), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, RedirectURI: "http://r1/cb", ExpiresAt: now.Add(time.Minute), Used: true})
		vfCred(s.RefreshTokens, vfTok(22), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, Code: sig(21), ExpiresAt: now.Add(time.Hour)})
		vfCred(s.AccessTokens, vfTok(23), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, Code: sig(21), ExpiresAt: now.Add(time.Hour)})
	case 9: // the client holds expired and spent credentials as well
		past := time.Now().Add(-time.Minute)
		vfCred(s.AuthorizationCodes, vfTok(31), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, RedirectURI: "http://r1/cb", ExpiresAt: past})
		vfCred(s.AuthorizationCodes, vfTok(34), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, RedirectURI: "http://r1/cb", ExpiresAt: past, Used: true})
		vfCred(s.RefreshTokens, vfTok(32), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, ExpiresAt: past})
		vfCred(s.AccessTokens, vfTok(33), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, ExpiresAt: past})
	case 10: // a crowd of everything
		vfCrowd(s, 130)
	}
}

// vfCrowd stores n further credentials of each kind, clients and users: of
// the main client and of others, live, expired and spent, some of them
// descending from a code.
func vfCrowd(s *Server, n int) {
	now := time.Now()
	for i := 0; i < n; i++ {
		id := strconv.Itoa(1000 + i)
		s.Clients["crowd-"+id] = &ServerEntity{Secret: "s" + id, Confidential: i%2 == 0, RedirectURI: "http://crowd/" + id}
		s.Users["crowd-"+id] = &ServerEntity{Secret: "p" + id}
		c := ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, ExpiresAt: now.Add(time.Hour)}
		if i%3 == 1 {
			c.ClientID, c.Username = "crowd-"+id, "crowd-"+id
		}
		if i%5 == 3 {
			c.ExpiresAt = now.Add(-time.Hour)
		}
		tail := id + "-abcdefghijklmnopqrstuvwxyzABCDEFGHIJKL" // 43 bytes as a signature
		t := c
		if i%7 == 2 {
			t.Code = "k" + tail[1:]
		}
		at, rt := t, t
		s.AccessTokens["a"+tail[1:]] = &at
		s.RefreshTokens["r"+tail[1:]] = &rt
		c.RedirectURI = "http://r1/cb"
		c.Used = i%7 == 2
		s.AuthorizationCodes["k"+tail[1:]] = &c
	}
}

// vfNuis is the nuisance of the current world; 0 is the plain one.
var vfNuis int

// vfIn limits a bound in the varied worlds of the quick tier.
func vfIn(n, varied int) int {
	if vfNuis != 0 && n > varied {
		return varied
	}
	return n
}

// vfNoColon yields a client identifier usable in Basic authentication.
func vfNoColon(s string) {
	for i := 0; i < len(s); i++ {
		vfAssume(s[i] != ':')
	}
}

// vfDenied checks a refused request: an error status, no credential in the
// body and unchanged state.
func vfDenied(s *Server, sn *vfSnapT, w *vfRec, p string) {
	vfAssert(len(w.codes) == 1, p+".denied-one-response")
	vfAssert(w.status() >= 400 && w.status() < 500, p+".denied-status")
	_, at := vfJSONStr(w.body, "access_token")
	_, rt := vfJSONStr(w.body, "refresh_token")
	_, ac := vfJSONBool(w.body, "active")
	vfAssert(!at && !rt && !ac, p+".denied-reveals-nothing")
	name, ok := vfJSONStr(w.body, "error")
	vfAssert(ok && name != "", p+".denied-error-document")
	vfAssert(vfSame(sn, s), p+".denied-no-effect")
}

// At the token, introspection and revocation endpoints a request is served
// only for a registered client, and for a confidential client only with its
// exact secret; anything else is refused with no effect and no information.
// bounds: 2 registered clients; client id, stored secret and presented secret symbolic of 0-3 (thorough: 0-6) bytes; secrets in the body also of 33, 80 and 260 bytes, confidentiality symbolic; credentials in the Basic header, in the body, or both; all 6 operations
// reach: served refused-unknown refused-secret public other-client basic body
func vfH_P04_auth() {
	n := 3
	if vfThorough() {
		n = 6
	}
	s, k1, r1, a1 := vfWorld()
	n = vfIn(n, 2)
	conf := vfBool("conf")
	via := vfChoice("via", 3)
	stored, sec := "", ""
	if via == 1 {
		stored, sec = vfSized("stored", n), vfSized("sec", n)
	} else {
		stored, sec = vfString("stored", 0, n), vfString("sec", 0, n)
	}
	s.Clients["c1"] = &ServerEntity{Secret: stored, Confidential: conf, RedirectURI: "http://r1/cb"}
	op := vfChoice("op", 6)
	r := vfGrantReq(op, k1, r1, a1)
	id := vfString("id", 0, n)
	vfNoColon(id)
	switch via {
	case 0:
		r.SetBasicAuth(id, sec)
		vfReach("basic")
	case 1:
		vfSet(r, "client_id", id)
		vfSet(r, "client_secret", sec)
		vfReach("body")
	case 2: // the header wins over the body
		r.SetBasicAuth(id, sec)
		vfSet(r, "client_id", "c2")
		vfSet(r, "client_secret", "s2")
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	if via == 1 && op >= 4 {
		// the body is no place for credentials here
		vfDenied(s, sn, w, "P04")
		return
	}
	known := id == "c1" || id == "c2"
	ok := known
	other := s.Clients["c2"]
	if id == "c1" && conf && sec != stored {
		ok = false
	}
	if id == "c2" && (sec != other.Secret && other.Confidential || op == 1 && !other.Confidential) {
		ok = false
	}
	if op == 1 && id == "c1" && !conf {
		ok = false // public clients cannot use the client credentials grant
	}
	if !ok {
		vfDenied(s, sn, w, "P04")
		if id != "" {
			vfAssert(w.status() == 401, "P04.refused-status")
			vfAssert(w.has("Www-Authenticate"), "P04.refused-challenge")
			name, _ := vfJSONStr(w.body, "error")
			vfAssert(name == "invalid_client", "P04.refused-error")
		}
		if !known {
			vfReach("refused-unknown")
		} else {
			vfReach("refused-secret")
		}
		return
	}
	if id == "c1" {
		vfAssert(w.status() == 200, "P04.served")
		vfReach("served")
		if !conf && sec != stored {
			vfReach("public")
		}
	} else {
		vfReach("other-client")
		if op >= 2 {
			vfAssert(w.status() == 400 || w.status() == 401, "P04.other-client-refused")
			vfAssert(vfSame(sn, s), "P04.other-client-no-effect")
		}
	}
}

// Client credentials in the query string, in a malformed Authorization header
// or missing altogether authenticate nobody.
// bounds: 6 operations; Authorization header of at most 8 (thorough: 10) arbitrary bytes or absent; correct credentials in the query
// reach: refused
func vfH_P04_elsewhere() {
	n := 8
	if vfThorough() {
		n = 10
	}
	s, k1, r1, a1 := vfWorld()
	r := vfGrantReq(vfChoice("op", 6), k1, r1, a1)
	vfQuery(r, "client_id", "c1")
	vfQuery(r, "client_secret", "s1")
	if vfBool("hdr") {
		r.Header["Authorization"] = []string{vfString("h", 0, n)}
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfDenied(s, sn, w, "P04e")
	vfReach("refused")
}

// The client a credential is issued to is the authenticated one, whatever
// else the request names.
// bounds: 4 grants; conflicting client_id in the body (symbolic, 0-3 bytes) and in the query
// reach: issued
func vfH_P04_identity() {
	s, k1, r1, a1 := vfWorld()
	op := vfChoice("op", 4)
	r := vfGrantReq(op, k1, r1, a1)
	r.SetBasicAuth("c1", "s1")
	vfSet(r, "client_id", vfString("cid", 0, 3))
	vfSet(r, "client_secret", vfString("csec", 0, 3))
	vfQuery(r, "client_id", "c2")
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(w.status() == 200, "P04.identity-served")
	na := vfAdded(sn.at, s.AccessTokens)
	vfAssert(len(na) == 1, "P04.identity-one-token")
	vfAssert(s.AccessTokens[na[0]].ClientID == "c1", "P04.identity-client")
	nr := vfAdded(sn.rt, s.RefreshTokens)
	vfAssert(len(nr) == 1 && s.RefreshTokens[nr[0]].ClientID == "c1", "P04.identity-refresh-client")
	vfReach("issued")
}
