package oauth2

import (
	"net/http"
	"strings"
	"time"
)

// vfBig is the property the large world is run for: its assertions are made,
// the others are assumed.
var vfBig string

func vfBigIs(p string, c bool, id string) {
	if !strings.Contains(p, vfBig) {
		vfAssume(c)
		return
	}
	vfAssert(c, vfBig+".big-"+id)
	vfReach("checked")
}

// vfTwist replaces one byte of a value by a symbolic other one.
func vfTwist(name, s string) string {
	i := []int{0, len(s) / 2, len(s) - 1}[vfChoice(name+".pos", 3)]
	c := vfStringIn(name+".c", 1, 1, vfWord)
	vfAssume(c != s[i:i+1])
	return s[:i] + c + s[i+1:]
}

// vfBigFlow runs one grant and everything after it for a client and a user
// whose names, secrets, redirect URI and scopes are long, among others that
// differ in one byte, with at most one presented value wrong by one symbolic
// byte.
func vfBigFlow(p string) {
	vfBig = p
	n := []int{70, 300, 1100, 2100}[vfChoice("n", 4)]
	pad := func(pre string) string {
		b := make([]byte, 0, n)
		b = append(b, pre...)
		for i := len(b); i < n; i++ {
			b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789-_"[i%38])
		}
		return string(b)
	}
	cid, sec, user, pw, redir := pad("client-"), pad("secret-"), pad("user-"), pad("pass-"), pad("http://r1/cb/")
	var scope Scope
	for i := 0; i < n/16 && i < 40; i++ {
		scope = append(scope, pad("item")[:4+i%7]+vfDec(i))
	}
	scope = append(scope, pad("long"))
	s := vfNewServer(scope)
	s.Clients[cid] = &ServerEntity{Secret: sec, Confidential: true, RedirectURI: redir}
	s.Clients[cid+"2"] = &ServerEntity{Secret: sec + "2", Confidential: true, RedirectURI: redir + "2"}
	s.Clients[cid[:n-1]] = &ServerEntity{Secret: sec[:n-1], Confidential: true, RedirectURI: redir[:n-1]}
	s.Users[user] = &ServerEntity{Secret: pw}
	s.Users[user+"2"] = &ServerEntity{Secret: pw + "2"}
	s.Users[user[:n-1]] = &ServerEntity{Secret: pw[:n-1]}
	post := func(path, id, secret string, kv ...string) (*vfRec, *vfSnapT) {
		r := vfReq("POST", path)
		if id != "" {
			r.SetBasicAuth(id, secret)
		}
		for i := 0; i < len(kv); i += 2 {
			vfSet(r, kv[i], kv[i+1])
		}
		sn := vfSnapshot(s)
		return vfServe(s, r), sn
	}
	refused := func(p, what string, w *vfRec, sn *vfSnapT) {
		vfBigIs(p, w.status() >= 400 && w.status() < 500, what+"-refused")
		vfBigIs(p, vfSame(sn, s), what+"-no-effect")
	}
	field := func(wrong string, name, v string) string {
		if wrong == name {
			return vfTwist(name, v)
		}
		return v
	}
	grant := vfChoice("grant", 4)
	// which value is presented wrong
	wrongs := []string{"", "client", "secret", "user", "password", "scope", "redirect", "redeemed"}
	wrong := wrongs[vfChoice("wrong", len(wrongs))]
	vfAssume(grant < 2 || wrong != "secret" || grant == 2)         // the implicit grant has no secret
	vfAssume(grant != 1 || wrong != "user" && wrong != "password") // the client credentials grant has no user
	vfAssume(grant >= 2 || wrong != "redirect")                    // only the front channel
	vfAssume(grant == 2 || wrong != "redeemed")                    // only the code grant
	id, u, pass := field(wrong, "client", cid), field(wrong, "user", user), field(wrong, "password", pw)
	want := vfJoin(scope)
	if wrong == "scope" {
		want = vfJoin(scope[:len(scope)-1]) + " " + vfTwist("scope", scope[len(scope)-1])
	}
	if grant < 2 {
		var w *vfRec
		var sn *vfSnapT
		if grant == 0 {
			w, sn = post("/token", id, field(wrong, "secret", sec), "grant_type", "password", "username", u, "password", pass, "scope", want)
		} else {
			w, sn = post("/token", id, field(wrong, "secret", sec), "grant_type", "client_credentials", "scope", want)
			user = ""
		}
		switch wrong {
		case "client", "secret":
			refused("P04", wrong, w, sn)
			return
		case "user", "password":
			refused("P05", wrong, w, sn)
			return
		case "scope":
			refused("P06", wrong, w, sn)
			return
		}
		vfBigIs("P04 P05 P06", w.status() == 200, "served")
		vfBigAfter(s, post, w, cid, sec, user, scope, "")
		return
	}
	typ := "code"
	if grant == 3 {
		typ = "token"
	}
	w, sn := post("/authorize", "", "", "response_type", typ, "client_id", id, "redirect_uri", field(wrong, "redirect", redir),
		"scope", want, "username", u, "password", pass)
	switch wrong {
	case "client", "redirect":
		vfBigIs("P12", w.status() >= 400 && w.status() < 500 && !w.has("Location"), wrong+"-not-redirected")
		vfBigIs("P12", vfSame(sn, s), wrong+"-no-effect")
		return
	case "user", "password":
		vfBigIs("P05", w.status() == 303 && strings.HasPrefix(w.get("Location"), redir) && strings.Contains(w.get("Location"), "error=access_denied"), wrong+"-denied")
		vfBigIs("P05", vfSame(sn, s), wrong+"-no-effect")
		return
	case "scope":
		vfBigIs("P06", w.status() == 303 && strings.HasPrefix(w.get("Location"), redir) && strings.Contains(w.get("Location"), "error=invalid_scope"), wrong+"-denied")
		vfBigIs("P06", vfSame(sn, s), wrong+"-no-effect")
		return
	}
	loc := w.get("Location")
	if grant == 3 {
		vfBigIs("P05 P06 P12", w.status() == 303 && strings.HasPrefix(loc, redir+"#access_token="), "redirected")
		na := vfAdded(sn.at, s.AccessTokens)
		vfBigIs("P05", len(na) == 1, "issued")
		c := s.AccessTokens[na[0]]
		vfBigIs("P05", c.Username == user && c.ClientID == cid, "owner")
		vfBigIs("P06", vfScopeEq(c.Scope, scope), "implicit-scope")
		return
	}
	pre := redir + "?code="
	vfBigIs("P05 P06 P12", w.status() == 303 && strings.HasPrefix(loc, pre), "redirected")
	nk := vfAdded(sn.ac, s.AuthorizationCodes)
	vfBigIs("P05", len(nk) == 1, "issued")
	k := s.AuthorizationCodes[nk[0]]
	vfBigIs("P05", k.Username == user && k.ClientID == cid, "owner")
	vfBigIs("P06", vfScopeEq(k.Scope, scope), "approved-scope")
	code := loc[len(pre):]
	w, sn = post("/token", cid, field(wrong, "secret", sec), "grant_type", "authorization_code", "code", code, "redirect_uri", field(wrong, "redeemed", redir))
	switch wrong {
	case "secret":
		refused("P04", wrong, w, sn)
		return
	case "redeemed":
		refused("P07", wrong, w, sn)
		return
	}
	vfBigIs("P04 P07", w.status() == 200, "redeemed")
	vfBigAfter(s, post, w, cid, sec, user, scope, code)
}

// vfBigAfter uses the issued tokens.
func vfBigAfter(s *Server, post func(path, id, secret string, kv ...string) (*vfRec, *vfSnapT), w *vfRec, cid, sec, user string, scope Scope, code string) {
	at, ok1 := vfJSONStr(w.body, "access_token")
	rt, ok2 := vfJSONStr(w.body, "refresh_token")
	granted, ok3 := vfJSONStr(w.body, "scope")
	vfAssume(ok1 && ok2)
	vfBigIs("P06", ok3 && granted == vfJoin(scope), "granted")
	guard := func(tok string) bool {
		r := &http.Request{Method: "GET", Header: http.Header{"Authorization": {"Bearer " + tok}}}
		rec := vfNewRec()
		return s.Authorize(rec, r, scope)
	}
	other := cid + "2"
	inspect := func(tok, typ string, exp time.Duration) {
		w, _ := post("/introspect", cid, sec, "token", tok)
		active, ok := vfJSONBool(w.body, "active")
		vfBigIs("P14", ok && active, "active")
		id, _ := vfJSONStr(w.body, "client_id")
		u, _ := vfJSONStr(w.body, "username")
		sc, _ := vfJSONStr(w.body, "scope")
		tt, _ := vfJSONStr(w.body, "token_type")
		vfBigIs("P14", id == cid && u == user && sc == vfJoin(scope) && tt == typ, "details")
		w, sn := post("/introspect", other, sec+"2", "token", tok)
		vfBigIs("P14", w.status() == 401 && vfSame(sn, s), "foreign")
	}
	dead := func(p, what, tok string) {
		w, _ := post("/introspect", cid, sec, "token", tok)
		active, ok := vfJSONBool(w.body, "active")
		vfBigIs(p, ok && !active, what+"-inactive")
	}
	switch vfChoice("after", 5) {
	case 0: // use
		vfBigIs("P01", guard(at), "opens")
		vfBigIs("P01", !guard(rt), "refresh-token-refused")
		need := append(append(Scope{}, scope[1:]...), vfTwist("need", scope[len(scope)-1]))
		r := vfReq("GET", "/api")
		r.Header["Authorization"] = []string{"Bearer " + at}
		rec := vfNewRec()
		vfBigIs("P01", !s.Authorize(rec, r, need) && rec.status() == 403, "exceeding-scope-refused")
	case 1: // introspect
		inspect(at, "access_token", time.Hour)
		inspect(rt, "refresh_token", 7*24*time.Hour)
	case 2: // refresh
		w, sn := post("/token", other, sec+"2", "grant_type", "refresh_token", "refresh_token", rt)
		vfBigIs("P09", w.status() == 400 && vfSame(sn, s), "foreign-refused")
		w, sn = post("/token", cid, sec, "grant_type", "refresh_token", "refresh_token", rt)
		vfBigIs("P04 P09", w.status() == 200, "refreshed")
		na, nr := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens)
		vfBigIs("P09", len(na) == 1 && len(nr) == 1, "replaced")
		a, b := s.AccessTokens[na[0]], s.RefreshTokens[nr[0]]
		vfBigIs("P09", a.Username == user && a.ClientID == cid && b.Username == user && b.ClientID == cid, "same-owner")
		vfBigIs("P06", vfScopeEq(a.Scope, scope) && vfScopeEq(b.Scope, scope), "refreshed-scope")
		w, sn = post("/token", cid, sec, "grant_type", "refresh_token", "refresh_token", rt)
		vfBigIs("P09", w.status() == 400 && vfSame(sn, s), "spent")
	case 3: // revoke
		for _, tok := range []string{at, rt} {
			w, sn := post("/revoke", other, sec+"2", "token", tok)
			vfBigIs("P13", w.status() == 401 && vfSame(sn, s), "foreign-refused")
			w, _ = post("/revoke", cid, sec, "token", tok)
			vfBigIs("P04 P13", w.status() == 200, "revoked")
			vfBigIs("P13", !guard(tok), "revoked-closed")
			dead("P13", "revoked", tok)
		}
	case 4: // replay
		vfAssume(code != "")
		redir := s.Clients[cid].RedirectURI
		w, _ := post("/token", cid, sec, "grant_type", "authorization_code", "code", code, "redirect_uri", redir)
		vfBigIs("P08", w.status() == 400, "replay-refused")
		vfBigIs("P08", !guard(at), "replay-closed")
		dead("P08", "replayed-access", at)
		dead("P08", "replayed-refresh", rt)
	}
}

// The length of names, secrets and scopes does not matter to the guard.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P01_big() { vfBigFlow("P01") }

// The length of client identifiers and secrets does not matter.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P04_big() { vfBigFlow("P04") }

// The length of user names and passwords does not matter.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P05_big() { vfBigFlow("P05") }

// The length of scope items and of everything else does not matter.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P06_big() { vfBigFlow("P06") }

// The length of redirect URIs and of everything else does not matter to redemption.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P07_big() { vfBigFlow("P07") }

// The length of names and scopes does not matter to a replayed code.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P08_big() { vfBigFlow("P08") }

// The length of names and scopes does not matter to a refresh.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P09_big() { vfBigFlow("P09") }

// The length of the registered redirect URI and of everything else does not matter.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P12_big() { vfBigFlow("P12") }

// The length of names and scopes does not matter to a revocation.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P13_big() { vfBigFlow("P13") }

// The length of names and scopes does not matter to introspection.
// bounds: client, secret, user, password and redirect URI of 70, 300, 1100 or 2100 bytes and a scope of n/16 (at most 40) items and one of n bytes, each among others longer or shorter by one byte; 4 grants; at most one presented value wrong in its first, middle or last byte (symbolic); then one of use, introspection, refresh, revocation, replay
// reach: checked
func vfH_P14_big() { vfBigFlow("P14") }
