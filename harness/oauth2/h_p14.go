package oauth2

// Introspection reports a token active exactly when it is a stored, unexpired
// access or refresh token of the asking client, with that token's own client,
// user, scope, type and expiry; an inactive answer carries nothing else; a
// token of another client is refused; nothing is ever changed; the type hint
// does not change the answer.
// bounds: 10 kinds of presented token; hint absent, either known type, or 0-3 symbolic bytes; stored attributes symbolic (client id c + 0-2 bytes, user 0-4 bytes, scope of 0-2 items of 1-2 bytes), expiry -100000000..100000000 s symbolic with 4 sub-second parts, or the zero time, 1970 or 9999
// reach: active-access active-refresh expired unknown foreign bad-hint malformed
func vfH_P14_introspect() {
	s, k1, r1, a1 := vfWorld()
	kind := vfChoice("kind", 10)
	c := s.AccessTokens[a1.SignatureString()]
	typ := "access_token"
	if kind == 1 {
		c = s.RefreshTokens[r1.SignatureString()]
		typ = "refresh_token"
	}
	dead := false
	if kind < 2 {
		switch vfChoice("attr", 3) {
		case 0:
			c.ClientID = "c" + vfString("cid", 0, 2)
			c.ExpiresAt, dead = vfExpiry("exp")
		case 1:
			c.Username = vfString("user", 0, 4)
			c.Code = vfString("code", 0, 2)
		case 2:
			c.Scope = vfScopeN("have", 2, 2)
		}
	}
	tok := vfTokenOf(kind, k1, r1, a1)
	r := vfReq("POST", "/introspect")
	r.SetBasicAuth("c1", "s1")
	vfSet(r, "token", tok)
	hint := ""
	switch vfChoice("hint", 4) {
	case 1:
		hint = "access_token"
	case 2:
		hint = "refresh_token"
	case 3:
		hint = vfString("hint", 0, 3)
	}
	if hint != "" {
		vfSet(r, "token_type_hint", hint)
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(vfSame(sn, s), "P14.read-only")
	vfAssert(len(w.codes) == 1, "P14.one-response")
	if hint != "" && hint != "access_token" && hint != "refresh_token" {
		vfDenied(s, sn, w, "P14.hint")
		name, _ := vfJSONStr(w.body, "error")
		vfAssert(name == "unsupported_token_type", "P14.hint-error")
		vfReach("bad-hint")
		return
	}
	switch {
	case kind < 2 && c.ClientID == "c1" && !dead:
		vfAssert(w.status() == 200, "P14.status")
		active, ok := vfJSONBool(w.body, "active")
		vfAssert(ok && active, "P14.active")
		cid, _ := vfJSONStr(w.body, "client_id")
		user, _ := vfJSONStr(w.body, "username")
		scope, _ := vfJSONStr(w.body, "scope")
		tt, _ := vfJSONStr(w.body, "token_type")
		exp, _ := vfJSONInt(w.body, "exp")
		vfAssert(cid == "c1", "P14.client")
		vfAssert(tt == typ, "P14.type")
		if vfJSONSafe(c.Username) {
			vfAssert(user == c.Username, "P14.user")
		}
		vfAssert(scope == vfJoin(c.Scope), "P14.scope")
		vfAssert(int64(exp) == c.ExpiresAt.Unix(), "P14.exp")
		if kind == 0 {
			vfReach("active-access")
		} else {
			vfReach("active-refresh")
		}
	case kind < 2 && c.ClientID == "c1", kind == 2, kind == 5, kind == 9:
		vfAssert(w.status() == 200, "P14.inactive-status")
		active, ok := vfJSONBool(w.body, "active")
		vfAssert(ok && !active, "P14.inactive")
		vfAssert(vfJSONKeys(w.body) == "active", "P14.inactive-reveals-nothing")
		if kind < 2 {
			vfReach("expired")
		} else {
			vfReach("unknown")
		}
	case kind < 5:
		vfDenied(s, sn, w, "P14.foreign")
		vfReach("foreign")
	default:
		vfDenied(s, sn, w, "P14.malformed")
		vfReach("malformed")
	}
}

// vfJSONSafe: JSON strings are Unicode, so only ASCII text is compared.
func vfJSONSafe(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ok = false
		}
	}
	return ok
}

// In any history introspection agrees with the token's real state: active
// exactly until it expires, is revoked, refreshed away or disabled by a code
// replay.
// bounds: a password grant and an authorized code, then 3 (thorough: 4) steps out of 5 kinds (redeem or replay the code, refresh any refresh token with full or narrowed scope, revoke any token, advance 0-3 s symbolic, introspect any credential by any of 2 clients), then every credential is introspected by its owner
// reach: probed
func vfH_P14_history() {
	m := vfNewModel("P14", "i")
	n := 3
	if vfThorough() {
		n = 4
	}
	m.password("c1")
	k := m.authorize("c1")
	for i := 0; i < n; i++ {
		switch vfChoice("op", 5) {
		case 0:
			m.redeem(k, "c1")
		case 1:
			m.refresh(m.pick("rt", "r"), "c1", []string{"", "y"}[vfChoice("sc", 2)])
		case 2:
			m.revoke(m.pick("any", "ar"), "c1", "")
		case 3:
			m.advance(vfInt("dt", 0, 3))
		case 4:
			m.introspect(m.pick("any", "arc"), []string{"c1", "c2"}[vfChoice("by", 2)])
		}
	}
	for _, t := range m.toks {
		m.introspect(t, t.client)
	}
	vfReach("probed")
}
