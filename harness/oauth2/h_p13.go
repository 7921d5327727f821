package oauth2

// vfTokenOf names one of ten kinds of presented token and the store entry it
// refers to: 0 own access, 1 own refresh, 2 own code, 3 foreign access,
// 4 foreign refresh, 5 valid but unknown, 6 wrong secret, 7 mixed halves,
// 8 malformed, 9 foreign code.
func vfTokenOf(kind int, k1, r1, a1 *HS256Token) string {
	switch kind {
	case 0:
		return a1.String()
	case 1:
		return r1.String()
	case 2:
		return k1.String()
	case 3:
		return vfTok(13).String()
	case 4:
		return vfTok(12).String()
	case 5:
		return vfTok(9).String()
	case 6:
		return HS256TokenFromKey([]byte("another-secret-1"), a1.Key).String()
	case 7:
		return vfTok(9).KeyString() + "." + a1.SignatureString()
	case 8:
		return vfString("garbage", 1, 3)
	}
	return vfTok(11).String()
}

// Revocation removes exactly the presented access or refresh token, and only
// for the client it was issued to; the type hint is advisory; an unknown,
// already revoked or foreign-kind token is acknowledged without effect; every
// other credential stays as it was.
// bounds: 10 kinds of presented token; hint absent, either known type, or 0-3 symbolic bytes; owner attributes of the stored token symbolic (client id c + 0-2 bytes, user 0-3 bytes), expired or not; confidential or public client
// reach: revoked unknown foreign bad-hint malformed expired
func vfH_P13_revoke() {
	s, k1, r1, a1 := vfWorld()
	kind := vfChoice("kind", 10)
	ca, cr := s.AccessTokens[a1.SignatureString()], s.RefreshTokens[r1.SignatureString()]
	if kind < 2 {
		c := ca
		if kind == 1 {
			c = cr
		}
		c.ClientID = "c" + vfString("cid", 0, 2)
		c.Username = vfString("user", 0, 3)
		c.Code = vfString("code", 0, 2)
		if vfNuis == 8 { // its siblings
			s.AccessTokens[vfTok(23).SignatureString()].Code = c.Code
			s.RefreshTokens[vfTok(22).SignatureString()].Code = c.Code
		}
		exp, dead := vfExpiry("exp")
		c.ExpiresAt = exp
		if dead {
			vfReach("expired")
		}
	}
	tok := vfTokenOf(kind, k1, r1, a1)
	r := vfReq("POST", "/revoke")
	if vfBool("public") {
		s.Clients["c1"].Confidential = false
		r.SetBasicAuth("c1", vfString("any", 0, 2))
	} else {
		r.SetBasicAuth("c1", "s1")
	}
	vfSet(r, "token", tok)
	hint := ""
	switch vfChoice("hint", 4) {
	case 1:
		hint = "access_token"
	case 2:
		hint = "refresh_token"
	case 3:
		hint = vfString("hint", 0, 3)
	}
	if hint != "" {
		vfSet(r, "token_type_hint", hint)
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	if hint != "" && hint != "access_token" && hint != "refresh_token" {
		vfDenied(s, sn, w, "P13.hint")
		name, _ := vfJSONStr(w.body, "error")
		vfAssert(name == "unsupported_token_type", "P13.hint-error")
		vfReach("bad-hint")
		return
	}
	vfAssert(len(w.codes) == 1, "P13.one-response")
	sa, sr := a1.SignatureString(), r1.SignatureString()
	switch {
	case kind == 0 && ca.ClientID == "c1":
		_, still := s.AccessTokens[sa]
		vfAssert(w.status() == 200 && !still, "P13.access-revoked")
		vfAssert(len(s.AccessTokens) == len(sn.at)-1 && vfKeeps(sn.at, s.AccessTokens, sa), "P13.other-access-kept")
		vfAssert(len(s.RefreshTokens) == len(sn.rt) && vfKeeps(sn.rt, s.RefreshTokens), "P13.refresh-kept")
		vfAssert(len(s.AuthorizationCodes) == len(sn.ac) && vfKeeps(sn.ac, s.AuthorizationCodes), "P13.codes-kept")
		ok, _ := vfAuthz(s, tok, nil)
		vfAssert(!ok, "P13.access-unusable")
		vfReach("revoked")
	case kind == 1 && cr.ClientID == "c1":
		_, still := s.RefreshTokens[sr]
		vfAssert(w.status() == 200 && !still, "P13.refresh-revoked")
		vfAssert(len(s.RefreshTokens) == len(sn.rt)-1 && vfKeeps(sn.rt, s.RefreshTokens, sr), "P13.other-refresh-kept")
		vfAssert(len(s.AccessTokens) == len(sn.at) && vfKeeps(sn.at, s.AccessTokens), "P13.access-kept")
		vfAssert(len(s.AuthorizationCodes) == len(sn.ac) && vfKeeps(sn.ac, s.AuthorizationCodes), "P13.codes-kept")
		vfReach("revoked")
	case kind == 0 || kind == 1 || kind == 3 || kind == 4:
		vfDenied(s, sn, w, "P13.foreign")
		vfReach("foreign")
	case kind == 2 || kind == 5 || kind == 9:
		vfAssert(w.status() == 200 && vfSame(sn, s), "P13.unknown-acknowledged")
		vfReach("unknown")
	default:
		vfDenied(s, sn, w, "P13.malformed")
		vfReach("malformed")
	}
	if w.status() == 200 {
		// revoking again is acknowledged and changes nothing more
		sn2 := vfSnapshot(s)
		w2 := vfServe(s, r)
		vfAssert(w2.status() == 200 && vfSame(sn2, s), "P13.idempotent")
	}
}

// In any history a revoked token never works again - not at the resource, not
// for a refresh, not at introspection - and no other token is affected.
// bounds: a password grant and a redeemed code, then 2 (thorough: 3) steps out of 5 kinds (revoke any token by its owner or another client with any hint, refresh, use, introspect, advance 0-3 s symbolic), then every token ever issued is probed at the resource and introspection and every refresh token is presented once
// reach: revoked foreign refresh-after
func vfH_P13_history() {
	m := vfNewModel("P13", "vuir")
	n := 2
	if vfThorough() {
		n = 3
	}
	m.password("c1")
	if vfBool("code") {
		m.redeem(m.authorize("c2"), "c2")
	}
	for i := 0; i < n; i++ {
		switch vfChoice("op", 4) {
		case 0:
			k := m.pick("any", "ar")
			by := []string{"c1", "c2"}[vfChoice("by", 2)]
			if by == k.client {
				vfReach("revoked")
			} else {
				vfReach("foreign")
			}
			m.revoke(k, by, []string{"", "access_token", "refresh_token"}[vfChoice("hint", 3)])
		case 1:
			k := m.pick("rt", "r")
			m.refresh(k, k.client, "")
		case 2:
			m.introspect(m.pick("any", "arc"), "c1")
		case 3:
			m.advance(vfInt("dt", 0, 3))
		}
	}
	m.probe()
	for _, k := range append([]*vfMTok{}, m.toks...) {
		if k.kind == 'r' {
			m.refresh(k, k.client, "x")
			vfReach("refresh-after")
		}
	}
	m.probe()
}
