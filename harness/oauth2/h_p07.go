package oauth2

import "time"

// An authorization code is exchanged for tokens exactly when it is stored,
// unused, unexpired and presented by the client it was issued to with the
// redirect URI used to obtain it; the tokens carry the code's user, client
// and scope, and the code is then spent.
// bounds: code client, redirect URI and user symbolic of 0-3 (thorough: 0-6) bytes after a fixed prefix, expiry -100000000..100000000 s symbolic with 4 sub-second parts, or the zero time, 1970 or 9999, used flag symbolic, 7 kinds of presented code; presented redirect URI symbolic or absent
// reach: redeemed used expired wrong-client wrong-redirect unknown other-credential malformed
func vfH_P07_redeem() {
	n := 3
	if vfThorough() {
		n = 6
	}
	s, k1, r1, a1 := vfWorld()
	c := s.AuthorizationCodes[k1.SignatureString()]
	exp, dead := c.ExpiresAt, false
	kind := vfChoice("kind", 7)
	if kind == 0 {
		s.Clients["c1"].Confidential = vfBool("conf")
		exp, dead = vfExpiry("exp")
		c.ExpiresAt = exp
		c.Used = vfBool("used")
		c.Username = vfString("user", 0, n)
		// the issuing client and redirect URI
		c.ClientID = "c" + vfString("cid", 0, 2)
		c.RedirectURI = "http://r1/" + vfStringIn("rest", 0, n, "abcd./-_~9A")
	}
	r := vfGrantReq(2, k1, r1, a1)
	r.SetBasicAuth("c1", "s1")
	stored := true
	switch kind {
	case 1:
		vfSet(r, "code", vfTok(9).String())
		stored = false
		vfReach("unknown")
	case 2:
		vfSet(r, "code", r1.String())
		stored = false
		vfReach("other-credential")
	case 3:
		vfSet(r, "code", a1.String())
		stored = false
	case 4:
		vfSet(r, "code", vfString("garbage", 0, 3))
		stored = false
		vfReach("malformed")
	case 5:
		vfSet(r, "code", HS256TokenFromKey([]byte("another-secret-1"), k1.Key).String())
		stored = false
	case 6:
		vfSet(r, "code", vfTok(9).KeyString()+"."+k1.SignatureString())
		stored = false
	}
	redir := ""
	if kind != 0 {
		redir = "http://r1/cb"
	} else if vfBool("with-redirect") {
		redir = "http://r1/" + vfStringIn("presented", 0, n, "abcd./-_~9A")
		vfSet(r, "redirect_uri", redir)
	} else {
		delete(r.PostForm, "redirect_uri")
		delete(r.Form, "redirect_uri")
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	sig := k1.SignatureString()
	used0 := c.Used
	if stored {
		used0 = sn.ac[0].val.Used
		for i := range sn.ac {
			if sn.ac[i].key == sig {
				used0 = sn.ac[i].val.Used
			}
		}
	}
	ok := stored && !used0 && !dead && c.ClientID == "c1" && c.RedirectURI == redir
	if !ok {
		vfDenied(s, sn, w, "P07")
		if stored {
			name, _ := vfJSONStr(w.body, "error")
			vfAssert(name == "invalid_grant", "P07.error-name")
		}
		if used0 {
			vfReach("used")
		} else if dead {
			vfReach("expired")
		} else if c.ClientID != "c1" {
			vfReach("wrong-client")
		} else if c.RedirectURI != redir {
			vfReach("wrong-redirect")
		}
		return
	}
	vfAssert(w.status() == 200, "P07.redeemed-status")
	na, nr := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens)
	vfAssert(len(na) == 1 && len(nr) == 1 && len(s.AuthorizationCodes) == len(sn.ac), "P07.issues-pair")
	at, rt := s.AccessTokens[na[0]], s.RefreshTokens[nr[0]]
	vfAssert(at.Username == c.Username && rt.Username == c.Username, "P07.user")
	vfAssert(at.ClientID == "c1" && rt.ClientID == "c1", "P07.client")
	vfAssert(vfScopeEq(at.Scope, Scope{"x"}) && vfScopeEq(rt.Scope, Scope{"x"}), "P07.scope")
	vfAssert(vfKeeps(sn.at, s.AccessTokens) && vfKeeps(sn.rt, s.RefreshTokens) && vfKeeps(sn.ac, s.AuthorizationCodes, sig), "P07.others-untouched")
	body, _ := vfJSONStr(w.body, "access_token")
	vfAssert(vfSigOf(body) == na[0], "P07.returned-access-token")
	body, _ = vfJSONStr(w.body, "refresh_token")
	vfAssert(vfSigOf(body) == nr[0], "P07.returned-refresh-token")
	vfReach("redeemed")
	// spent: the very same request never succeeds again
	w2 := vfServe(s, r)
	vfAssert(w2.status() == 400, "P07.single-use")
	_, again := vfJSONStr(w2.body, "access_token")
	vfAssert(!again, "P07.single-use-no-token")
	vfAssert(len(s.AccessTokens) <= len(sn.at)+1 && len(s.RefreshTokens) <= len(sn.rt)+1, "P07.single-use-no-issue")
}

// A code obtained from the authorization endpoint is redeemable by the
// requesting client with the same redirect URI within its lifetime, and a
// failed attempt (wrong client, wrong redirect URI) does not spend it.
// bounds: two registered clients; up to one failed attempt of 3 kinds before the right one; 0-2 s elapse symbolically
// reach: redeemed after-failure
func vfH_P07_flow() {
	s, _, _, _ := vfWorld()
	r := vfOwnerReq(2)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	sn0 := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(w.status() == 303, "P07.flow-authorized")
	nk := vfAdded(sn0.ac, s.AuthorizationCodes)
	vfAssert(len(nk) == 1, "P07.flow-one-code")
	loc := w.get("Location")
	pre := "http://r1/cb?code="
	vfAssert(len(loc) > len(pre) && loc[:len(pre)] == pre, "P07.flow-location")
	code := loc[len(pre):]
	vfAssert(vfSigOf(code) == nk[0], "P07.flow-code")
	vfAdvance(vfInt("dt", 0, 2))
	req := func(client, secret, redir string) *vfRec {
		q := vfReq("POST", "/token")
		q.SetBasicAuth(client, secret)
		vfSet(q, "grant_type", "authorization_code")
		vfSet(q, "code", code)
		vfSet(q, "redirect_uri", redir)
		return vfServe(s, q)
	}
	switch vfChoice("first", 4) {
	case 1:
		vfAssert(req("c2", "s2", "http://r1/cb").status() == 400, "P07.flow-wrong-client")
		vfReach("after-failure")
	case 2:
		vfAssert(req("c1", "s1", "http://r2/cb").status() == 400, "P07.flow-wrong-redirect")
	case 3:
		vfAssert(req("c1", "bad", "http://r1/cb").status() == 401, "P07.flow-wrong-secret")
	}
	sn := vfSnapshot(s)
	w = req("c1", "s1", "http://r1/cb")
	vfAssert(w.status() == 200, "P07.flow-redeemed")
	na := vfAdded(sn.at, s.AccessTokens)
	vfAssert(len(na) == 1 && s.AccessTokens[na[0]].Username == "u1", "P07.flow-user")
	vfReach("redeemed")
	vfAssert(req("c1", "s1", "http://r1/cb").status() == 400, "P07.flow-second")
}

var _ = time.Now
