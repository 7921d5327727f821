package oauth2

import "time"

// A refresh succeeds exactly when the token is a stored, unexpired refresh
// token of the authenticated client and the requested scope is within its
// scope; success issues a new pair for the same user and client and retires
// only the presented token, failure changes nothing.
// bounds: refresh token client (0-2 symbolic bytes after a prefix), user (0-4 bytes) and code lineage symbolic, expiry -100000000..100000000 s symbolic with 4 sub-second parts, or the zero time, 1970 or 9999, 7 kinds of presented token; separately a stored scope of 0-2 and a requested scope of 0-3 items of one symbolic byte
// reach: too-much-scope refreshed expired wrong-client not-refresh
func vfH_P09_refresh() {
	s, k1, r1, a1 := vfWorld()
	c := s.RefreshTokens[r1.SignatureString()]
	dead := false
	kind := vfChoice("kind", 8)
	tok := r1.String()
	if kind == 0 {
		c.ExpiresAt, dead = vfExpiry("exp")
		c.ClientID = "c" + vfString("cid", 0, 2)
		c.Username = vfString("user", 0, 4)
		c.Code = vfString("code", 0, 2)
	}
	var want Scope
	over := false
	if kind == 7 { // the scope decides
		c.Scope = vfScopeN("have", 2, 1)
		want = vfScopeN("want", vfIn(3, 2), 1)
		over = !vfIncludes(c.Scope, want)
	}
	switch kind {
	case 1:
		tok = a1.String()
	case 2:
		tok = k1.String()
	case 3:
		tok = vfTok(9).String()
	case 4:
		tok = HS256TokenFromKey([]byte("another-secret-1"), r1.Key).String()
	case 5:
		tok = vfTok(9).KeyString() + "." + r1.SignatureString()
	case 6:
		tok = vfString("garbage", 0, 3)
	}
	r := vfGrantReq(3, nil, r1, nil)
	r.SetBasicAuth("c1", "s1")
	vfSet(r, "refresh_token", tok)
	if kind == 7 {
		vfSet(r, "scope", vfJoin(want))
	}
	if len(want) == 0 {
		want = c.Scope
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	if kind != 0 && kind != 7 || dead || over || c.ClientID != "c1" {
		vfDenied(s, sn, w, "P09")
		if over {
			name, _ := vfJSONStr(w.body, "error")
			vfAssert(name == "invalid_scope", "P09.scope-error")
			vfReach("too-much-scope")
		} else if kind > 0 {
			vfReach("not-refresh")
		} else {
			name, _ := vfJSONStr(w.body, "error")
			vfAssert(name == "invalid_grant", "P09.error-name")
			if dead {
				vfReach("expired")
			} else {
				vfReach("wrong-client")
			}
		}
		return
	}
	sig := r1.SignatureString()
	vfAssert(w.status() == 200, "P09.status")
	_, still := s.RefreshTokens[sig]
	vfAssert(!still, "P09.old-token-retired")
	na, nr := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens)
	vfAssert(len(na) == 1 && len(nr) == 1, "P09.new-pair")
	at, rt := s.AccessTokens[na[0]], s.RefreshTokens[nr[0]]
	vfAssert(at.Username == c.Username && rt.Username == c.Username, "P09.same-user")
	vfAssert(at.ClientID == "c1" && rt.ClientID == "c1", "P09.same-client")
	vfAssert(vfScopeEq(at.Scope, want) && vfScopeEq(rt.Scope, want), "P09.same-scope")
	vfAssert(at.Code == c.Code && rt.Code == c.Code, "P09.lineage")
	now := time.Now()
	vfAssert(at.ExpiresAt.Equal(now.Add(s.Config.AccessTokenLifespan)) && rt.ExpiresAt.Equal(now.Add(s.Config.RefreshTokenLifespan)), "P09.lifetimes")
	vfAssert(vfKeeps(sn.at, s.AccessTokens) && vfKeeps(sn.rt, s.RefreshTokens, sig) && vfKeeps(sn.ac, s.AuthorizationCodes), "P09.others-untouched")
	body, _ := vfJSONStr(w.body, "access_token")
	vfAssert(vfSigOf(body) == na[0], "P09.returned-access-token")
	body, _ = vfJSONStr(w.body, "refresh_token")
	vfAssert(vfSigOf(body) == nr[0], "P09.returned-refresh-token")
	vfReach("refreshed")
	// the retired token is useless from now on
	sn2 := vfSnapshot(s)
	w2 := vfServe(s, r)
	vfDenied(s, sn2, w2, "P09again")
}

// In any sequence of refreshes each refresh token works at most once, only
// for its client and only within its lifetime, and the newest one keeps
// working.
// bounds: 3 (thorough: 4) steps, each a refresh with any refresh token known so far by one of 2 clients with 3 scope requests, or a clock advance of 0-3 s (symbolic)
// reach: old-refused chain
func vfH_P09_chain() {
	m := vfNewModel("P09", "ru")
	n := 3
	if vfThorough() {
		n = 4
	}
	m.password("c1")
	good := 0
	for i := 0; i < n; i++ {
		if vfBool("advance") {
			m.advance(vfInt("dt", 0, 3))
			continue
		}
		k := m.pick("rt", "r")
		was := k.dead
		cl := []string{"c1", "c2"}[vfChoice("client", 2)]
		if m.refresh(k, cl, []string{"", "x", "z"}[vfChoice("scope", 3)]) {
			good++
		} else if was {
			vfReach("old-refused")
		}
	}
	if good == n {
		vfReach("chain")
	}
	m.probe()
}

// However long a chain of refreshes, every refresh token of it worked once
// and never works again, and the newest one still does.
// bounds: chains of 10, 40 and 110 (thorough: 10, 110 and 260) refreshes, narrowed at the first or last step or not at all, with a pause of 0-4 s (symbolic) before one of them; then every refresh token of the chain again, by its client
// reach: chain
func vfH_P09_long() {
	n := []int{10, 40, 110}[vfChoice("n", 3)]
	if vfThorough() {
		n = []int{10, 110, 260}[vfChoice("n", 3)]
	}
	m := vfNewModel("P09", "r")
	m.password("c1")
	m.long(n, []int{-1, 0, n - 1}[vfChoice("narrow", 3)], []int{0, n / 2, n - 1}[vfChoice("pause", 3)], vfInt("dt", 0, 4))
	all := append([]*vfMTok{}, m.toks...)
	for i := len(all) - 1; i >= 0; i-- {
		if all[i].kind == 'r' && all[i].dead {
			m.refresh(all[i], "c1", "")
		}
	}
	for i := len(all) - 1; i >= 0; i-- {
		if all[i].kind == 'r' {
			m.refresh(all[i], "c1", "")
			break
		}
	}
	vfReach("chain")
}
