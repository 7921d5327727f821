package oauth2

import "time"

// A request is authorized exactly when it presents a stored, unexpired access
// token of this server that includes the required scope; otherwise exactly one
// Bearer error is written and nothing changes.
// bounds: 2 access tokens, 1 refresh token and 1 code stored; token scopes of at most 2 items and required scopes of at most 2 (thorough: 3) items of 1-2 (thorough: 1-3) symbolic bytes; client, user, code, redirect URI and used mark of the stored credentials symbolic (0-2 bytes each); expiry offset -100000000..100000000 s symbolic, sub-second part 0, 1, 500000000 or 999999999 ns, or the zero time, 1970 or 9999; 9 kinds of presented credential
// reach: granted expired scope unknown refresh code foreign tampered malformed
func vfH_P01_authorize() {
	n, l := 2, 2
	if vfThorough() {
		n, l = 3, 3
	}
	s := vfNewServer(Scope{"x"})
	now := time.Now()
	a1, a2, r1, k1 := vfTok(1), vfTok(2), vfTok(3), vfTok(4)
	exp, dead := vfExpiry("exp")
	kind := vfChoice("kind", 9)
	var have, req Scope
	if kind == 0 {
		have = vfScopeN("have", 2, l)
		req = vfScopeN("req", n, l)
	} else {
		have, req = Scope{"x"}, Scope{"x"}
	}
	// fields that must not matter
	cid, user, code, uri, used := vfString("cid", 0, 2), vfString("user", 0, 2), vfString("code", 0, 1), vfString("uri", 0, 1), vfBool("used")
	vfCred(s.AccessTokens, a1, ServerCredential{ClientID: cid, Username: user, Code: code, RedirectURI: uri, Used: used, Scope: have, ExpiresAt: exp})
	vfCred(s.AccessTokens, a2, ServerCredential{ClientID: "c2", Scope: Scope{"x"}, ExpiresAt: now.Add(time.Hour)})
	vfCred(s.RefreshTokens, r1, ServerCredential{ClientID: cid, Username: user, Code: code, RedirectURI: uri, Used: used, Scope: have, ExpiresAt: now.Add(time.Hour)})
	vfCred(s.AuthorizationCodes, k1, ServerCredential{ClientID: cid, Username: user, Code: code, RedirectURI: uri, Used: used, Scope: have, ExpiresAt: now.Add(time.Hour)})
	sn := vfSnapshot(s)
	tok := a1.String()
	want := false
	switch kind {
	case 0:
		want = !dead && vfIncludes(have, req)
	case 1:
		tok = vfTok(9).String() // genuine but not stored
		vfReach("unknown")
	case 2:
		tok = r1.String()
		vfReach("refresh")
	case 3:
		tok = k1.String()
		vfReach("code")
	case 4:
		tok = HS256TokenFromKey([]byte("another-secret-1"), a1.Key).String()
		vfReach("foreign")
	case 5: // the stored signature under a different key
		tok = a2.KeyString() + "." + a1.SignatureString()
		vfReach("tampered")
	case 6: // one signature byte flipped
		sig := append([]byte{}, a1.Signature...)
		d := vfByte("flip")
		vfAssume(d != 0)
		sig[vfChoice("pos", 4)*10] ^= d
		tok = a1.KeyString() + "." + b64.EncodeToString(sig)
	case 7:
		tok = a1.SignatureString()
		vfReach("malformed")
	case 8:
		tok = a1.String() + vfStringIn("tail", 1, 1, ".=A ~")
	}
	ok, w := vfAuthz(s, tok, req)
	vfAssert(ok == want, "P01.iff")
	if ok {
		vfAssert(len(w.codes) == 0 && w.writes == 0, "P01.granted-writes-nothing")
		vfReach("granted")
	} else {
		vfAssert(len(w.codes) == 1, "P01.one-response")
		vfAssert(w.status() == 401 || w.status() == 403 || w.status() == 400, "P01.error-status")
		h := w.get("Www-Authenticate")
		vfAssert(len(h) > 7 && h[:7] == "Bearer ", "P01.challenge")
		vfAssert(len(w.body) == 0, "P01.error-body")
		if kind == 0 && dead {
			vfAssert(w.status() == 401, "P01.expired-status")
			vfReach("expired")
		} else if kind == 0 {
			vfAssert(w.status() == 403, "P01.scope-status")
			vfReach("scope")
		} else {
			vfAssert(w.status() == 401, "P01.invalid-status")
		}
	}
	vfAssert(vfSame(sn, s), "P01.read-only")
	vfAssert(vfUnlocked(s), "P01.lock-released")
}

// No Authorization header short of a stored token is authorized, whatever its
// bytes, and requests without the header get the plain challenge.
// bounds: header value of at most 9 (thorough: 11) arbitrary bytes, or absent
// reach: absent denied
func vfH_P01_header() {
	n := 9
	if vfThorough() {
		n = 11
	}
	s := vfNewServer(Scope{"x"})
	a1 := vfTok(1)
	vfCred(s.AccessTokens, a1, ServerCredential{ClientID: "c1", ExpiresAt: time.Now().Add(time.Hour)})
	r := vfReq("GET", "/")
	if vfBool("present") {
		r.Header["Authorization"] = []string{vfString("h", 0, n)}
	} else {
		// other places a token could hide in must not count
		vfSet(r, "access_token", a1.String())
		vfQuery(r, "access_token", a1.String())
		vfReach("absent")
	}
	w := vfNewRec()
	ok := s.Authorize(w, r, nil)
	vfAssert(!ok, "P01.header-denied")
	vfAssert(len(w.codes) == 1 && (w.status() == 401 || w.status() == 400), "P01.header-status")
	vfReach("denied")
}

// Servers are independent: credentials of one never work at another one, even
// with the same secret, clients and users, and nothing done at one changes
// the other.
// bounds: two servers in one process with the same or different secrets; 9 operations or a resource request at the first, with its credentials stored there, before or after the second is used
// reach: tried
func vfH_P01_servers() {
	s, k1, r1, a1 := vfWorld()
	vfAssume(vfNuis == 0)
	o := NewServer(DefaultServerConfig(vfSecret(), Scope{"x", "y"}))
	if vfBool("secret") {
		o.Config.Secret = []byte("another-secret-1")
	}
	o.Clients["c1"] = &ServerEntity{Secret: "s1", Confidential: true, RedirectURI: "http://r1/cb"}
	o.Users["u1"] = &ServerEntity{Secret: "p1"}
	vfCred(o.AccessTokens, vfTok(41), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, ExpiresAt: time.Now().Add(time.Hour)})
	so := vfSnapshot(o)
	op := vfChoice("op", 10)
	var w *vfRec
	if op == 9 {
		ok, _ := vfAuthz(s, a1.String(), Scope{"x"})
		vfAssert(ok, "P01.servers-first")
	} else {
		w = vfServe(s, vfAnyReq(op, k1, r1, a1))
		vfAssert(w.status() == 200 || w.status() == 303, "P01.servers-first")
	}
	vfAssert(vfSame(so, o), "P01.servers-no-effect")
	toks := []string{k1.String(), r1.String(), a1.String()}
	if w != nil {
		if at, ok := vfJSONStr(w.body, "access_token"); ok {
			toks = append(toks, at)
		}
		if rt, ok := vfJSONStr(w.body, "refresh_token"); ok {
			toks = append(toks, rt)
		}
	}
	for _, tk := range toks {
		ok, _ := vfAuthz(o, tk, nil)
		vfAssert(!ok, "P01.servers-foreign")
		for _, g := range []string{"authorization_code", "refresh_token"} {
			r := vfReq("POST", "/token")
			r.SetBasicAuth("c1", "s1")
			vfSet(r, "grant_type", g)
			vfSet(r, "code", tk)
			vfSet(r, "refresh_token", tk)
			vfSet(r, "redirect_uri", "http://r1/cb")
			vfAssert(vfServe(o, r).status() == 400, "P01.servers-foreign-grant")
		}
	}
	vfAssert(vfSame(so, o), "P01.servers-still-no-effect")
	sn := vfSnapshot(s)
	vfServe(o, vfAnyReq(0, nil, nil, nil))
	vfAssert(vfSame(sn, s), "P01.servers-no-effect-back")
	vfReach("tried")
}
