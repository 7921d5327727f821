package oauth2

import (
	"net/http"
)

// vfOwnerReq is an otherwise valid request of a resource-owner grant:
// 0 password, 1 implicit, 2 code.
func vfOwnerReq(op int) *http.Request {
	var r *http.Request
	if op == 0 {
		r = vfReq("POST", "/oauth2/token")
		r.SetBasicAuth("c1", "s1")
		vfSet(r, "grant_type", "password")
	} else {
		r = vfReq("POST", "/oauth2/authorize")
		vfSet(r, "client_id", "c1")
		vfSet(r, "redirect_uri", "http://r1/cb")
		if op == 1 {
			vfSet(r, "response_type", "token")
		} else {
			vfSet(r, "response_type", "code")
		}
	}
	vfSet(r, "scope", "x")
	return r
}

// vfIssued returns the one credential a successful grant adds.
func vfIssued(s *Server, sn *vfSnapT, op int, p string) *ServerCredential {
	na, nr, nk := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens), vfAdded(sn.ac, s.AuthorizationCodes)
	vfAssert(vfKeeps(sn.at, s.AccessTokens) && vfKeeps(sn.rt, s.RefreshTokens) && vfKeeps(sn.ac, s.AuthorizationCodes), p+".others-untouched")
	switch op {
	case 0:
		vfAssert(len(na) == 1 && len(nr) == 1 && len(nk) == 0, p+".issues-access-and-refresh")
		rt := s.RefreshTokens[nr[0]]
		at := s.AccessTokens[na[0]]
		vfAssert(rt.Username == at.Username && rt.ClientID == at.ClientID && vfScopeEq(rt.Scope, at.Scope), p+".pair-agrees")
		return at
	case 1:
		vfAssert(len(na) == 1 && len(nr) == 0 && len(nk) == 0, p+".issues-access-only")
		return s.AccessTokens[na[0]]
	}
	vfAssert(len(na) == 0 && len(nr) == 0 && len(nk) == 1, p+".issues-code-only")
	return s.AuthorizationCodes[nk[0]]
}

// The password, implicit and code grants issue a credential exactly when the
// request body carries a registered user's name and that user's exact
// password; the credential then belongs to that user.
// bounds: 2 users; user name, password and stored password symbolic of 0-8 (thorough: 0-16) bytes; passwords additionally of 33, 80 and 260 symbolic bytes; 3 grants
// reach: issued wrong-password unknown-user
func vfH_P05_password() {
	n := 8
	if vfThorough() {
		n = 16
	}
	s, _, _, _ := vfWorld()
	stored := vfSized("stored", n)
	s.Users["u1"] = &ServerEntity{Secret: stored}
	op := vfChoice("op", 3)
	r := vfOwnerReq(op)
	user, pass := vfString("user", 0, n), vfSized("pass", n)
	vfSet(r, "username", user)
	vfSet(r, "password", pass)
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	ok := (user == "u1" && pass == stored) || (user == "u2" && pass == s.Users["u2"].Secret)
	if ok {
		c := vfIssued(s, sn, op, "P05")
		vfAssert(c.Username == user, "P05.owner")
		vfAssert(c.ClientID == "c1", "P05.client")
		vfAssert(vfScopeEq(c.Scope, Scope{"x"}), "P05.scope")
		if op == 0 {
			vfAssert(w.status() == 200, "P05.status")
		} else {
			vfAssert(w.status() == 303, "P05.redirect")
		}
		vfReach("issued")
		return
	}
	vfAssert(vfSame(sn, s), "P05.denied-no-effect")
	if op == 0 {
		vfDenied(s, sn, w, "P05")
		name, _ := vfJSONStr(w.body, "error")
		vfAssert(name == "access_denied", "P05.denied-error")
	} else {
		want := "http://r1/cb?error=access_denied"
		if op == 1 {
			want = "http://r1/cb#error=access_denied"
		}
		vfAssert(w.status() == 303 && w.get("Location") == want, "P05.denied-redirect")
	}
	if user == "u1" || user == "u2" {
		vfReach("wrong-password")
	} else {
		vfReach("unknown-user")
	}
}

// A name or password given several times authenticates the owner only if it
// is right: neither parts of it nor a wrong one next to others will do.
// bounds: 3 grants; two values of 0-3 symbolic bytes each for one of user name and password, or the right one split in two at any place
// reach: denied issued
func vfH_P05_repeated() {
	s, _, _, _ := vfWorld()
	vfAssume(vfNuis == 0)
	s.Users["u1"].Secret = "pass"
	op := vfChoice("op", 3)
	r := vfOwnerReq(op)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "pass")
	f, right := "username", "u1"
	if vfBool("password") {
		f, right = "password", "pass"
	}
	var a, b string
	if vfBool("split") {
		i := vfChoice("at", 4)
		vfAssume(i <= len(right))
		a, b = right[:i], right[i:]
	} else {
		a, b = vfString("a", 0, 4), vfString("b", 0, 4)
	}
	// every other registered name has another password
	vfAssume(f == "username" || a != "")
	r.PostForm[f], r.Form[f] = []string{a, b}, []string{a, b}
	sn := vfSnapshot(s)
	vfServe(s, r)
	if a != right && b != right {
		vfAssert(vfSame(sn, s), "P05.repeated-denied")
		vfReach("denied")
	} else if a == right && b == right {
		vfAssert(!vfSame(sn, s), "P05.repeated-issued")
		vfReach("issued")
	}
}

// Owner credentials in the query string, in the Authorization header or
// split between query and body do not authenticate the owner.
// bounds: 3 grants; 4 placements
// reach: refused
func vfH_P05_elsewhere() {
	s, _, _, _ := vfWorld()
	op := vfChoice("op", 3)
	r := vfOwnerReq(op)
	switch vfChoice("place", 4) {
	case 0:
		vfQuery(r, "username", "u1")
		vfQuery(r, "password", "p1")
	case 1:
		vfSet(r, "username", "u1")
		vfQuery(r, "password", "p1")
	case 2:
		vfQuery(r, "username", "u1")
		vfSet(r, "password", "p1")
	case 3:
		if op != 0 {
			r.SetBasicAuth("u1", "p1")
		}
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P05.elsewhere-one-response")
	vfAssert(vfSame(sn, s), "P05.elsewhere-no-effect")
	vfAssert(w.status() != 200, "P05.elsewhere-refused")
	vfReach("refused")
}

// Showing the authorization endpoint with GET issues nothing, even with valid
// owner credentials in the request.
// bounds: both response types; valid credentials in query and body; methods GET, HEAD, PUT, empty and any 1-4 byte method other than POST
// reach: notice refused
func vfH_P05_get() {
	s, _, _, _ := vfWorld()
	r := vfOwnerReq(1 + vfChoice("op", 2))
	r.Method = []string{"GET", "HEAD", "PUT", "", "post"}[vfChoice("m", 5)]
	if vfBool("any") {
		r.Method = vfString("method", 1, 4)
	}
	vfAssume(r.Method != "POST")
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	vfQuery(r, "username", "u1")
	vfQuery(r, "password", "p1")
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P05.get-one-response")
	vfAssert(vfSame(sn, s), "P05.get-no-effect")
	vfAssert(!w.has("Location"), "P05.get-no-redirect")
	if w.status() == 200 {
		vfReach("notice")
	} else {
		vfReach("refused")
	}
}
