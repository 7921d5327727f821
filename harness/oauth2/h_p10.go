package oauth2

import "time"

// vfLifespan yields a configured lifespan: symbolic whole seconds plus one of
// three sub-second parts.
func vfLifespan(name string, max int) time.Duration {
	sec := vfInt(name, 0, max)
	sub := time.Duration(0)
	switch vfChoice(name+".sub", 4) {
	case 1:
		sub = 1
	case 2:
		sub = 999999999
	case 3:
		sub = 500000000
	}
	return time.Duration(sec)*time.Second + sub
}

// Every issued credential expires exactly its own kind's configured lifespan
// after the moment of issue, and the response announces the access token's
// lifespan in whole seconds.
// bounds: three independent lifespans of 0-5000000000 s (158 years; symbolic) plus 0, 1, 500000000 or 999999999 ns (one kind at a time); issue at 0-1000 s symbolic; all 5 grants; with and without an older family of the same code
// reach: access refresh code announced
func vfH_P10_issue() {
	s, k1, r1, _ := vfWorld()
	far := time.Now().Add(1000 * time.Hour)
	s.AuthorizationCodes[k1.SignatureString()].ExpiresAt = far
	s.RefreshTokens[r1.SignatureString()].ExpiresAt = far
	if vfBool("family") {
		s.RefreshTokens[r1.SignatureString()].Code = vfTok(21).SignatureString()
		vfCred(s.AuthorizationCodes, vfTok(21), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, RedirectURI: "http://r1/cb", ExpiresAt: far, Used: true})
		vfCred(s.RefreshTokens, vfTok(22), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, Code: vfTok(21).SignatureString(), ExpiresAt: far})
		vfCred(s.AccessTokens, vfTok(23), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, Code: vfTok(21).SignatureString(), ExpiresAt: far})
	}
	s.Config.AccessTokenLifespan = 11 * time.Second
	s.Config.RefreshTokenLifespan = 12 * time.Second
	s.Config.AuthorizationCodeLifespan = 13 * time.Second
	which := vfChoice("which", 3)
	life := vfLifespan("life", 5000000000)
	secs := 11
	switch which {
	case 0:
		s.Config.AccessTokenLifespan = life
		secs = int(life / time.Second)
	case 1:
		s.Config.RefreshTokenLifespan = life
	case 2:
		s.Config.AuthorizationCodeLifespan = life
	}
	al, rl, kl := s.Config.AccessTokenLifespan, s.Config.RefreshTokenLifespan, s.Config.AuthorizationCodeLifespan
	vfAdvance(vfInt("at", 0, 1000))
	now := time.Now()
	op := vfChoice("op", 6)
	vfAssume(op != 4 || which != 0) // P10_implicit covers this one
	r := vfGrantReq(op%4, k1, r1, nil)
	if op >= 4 {
		r = vfOwnerReq(op - 3)
		vfSet(r, "username", "u1")
		vfSet(r, "password", "p1")
	} else {
		r.SetBasicAuth("c1", "s1")
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	na, nr, nk := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens), vfAdded(sn.ac, s.AuthorizationCodes)
	vfAssert(len(na)+len(nr)+len(nk) > 0, "P10.issued")
	for _, k := range na {
		vfAssert(s.AccessTokens[k].ExpiresAt.Equal(now.Add(al)), "P10.access-expiry")
		vfReach("access")
	}
	for _, k := range nr {
		vfAssert(s.RefreshTokens[k].ExpiresAt.Equal(now.Add(rl)), "P10.refresh-expiry")
		vfReach("refresh")
	}
	for _, k := range nk {
		vfAssert(s.AuthorizationCodes[k].ExpiresAt.Equal(now.Add(kl)), "P10.code-expiry")
		vfReach("code")
	}
	if op < 4 {
		n, ok := vfJSONInt(w.body, "expires_in")
		vfAssert(ok && n == secs, "P10.expires-in")
		vfReach("announced")
	}
}

// The fragment of an implicit grant announces the same lifespan.
// bounds: access lifespan of 0-300 s and nine values up to 5000000000 s, each enumerated, plus 0, 1 or 999999999 ns
// reach: announced
func vfH_P10_implicit() {
	s, _, _, _ := vfWorld()
	d := vfChoice("sec", 310)
	if d > 300 {
		d = []int{3600, 32768, 65537, 604800, 16777217, 31536000, 2147483647, 2147483648, 5000000000}[d-301]
	}
	s.Config.AccessTokenLifespan = time.Duration(d)*time.Second + []time.Duration{0, 1, 999999999}[vfChoice("sub", 3)]
	r := vfOwnerReq(1)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	w := vfServe(s, r)
	loc := w.get("Location")
	want := "expires_in=" + vfDec(d) + "&"
	found := false
	for i := 0; i+len(want) <= len(loc); i++ {
		if loc[i:i+len(want)] == want {
			found = true
		}
	}
	vfAssert(found, "P10.fragment-expires-in")
	vfReach("announced")
}

func vfDec(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return vfDec(n/10) + "0123456789"[n%10:n%10+1]
}

// A credential works at its endpoint until its expiry instant and never after
// it, to the nanosecond; expiry of one kind does not affect the others.
// bounds: lifespans of 0-3000000000 s (95 years; symbolic) plus 0, 1, 500000000 or 999999999 ns; 0-3000000003 s elapse (symbolic) between issue and use; access token at the resource, refresh token and code at the token endpoint, access and refresh token at introspection
// reach: access-live access-dead refresh-live refresh-dead code-live code-dead introspect-live introspect-dead
func vfH_P10_use() {
	s, _, _, _ := vfWorld()
	life := vfLifespan("life", 3000000000)
	dt := vfInt("dt", 0, 3000000003)
	what := vfChoice("what", 5)
	long := 4000000000 * time.Second
	s.Config.AccessTokenLifespan, s.Config.RefreshTokenLifespan, s.Config.AuthorizationCodeLifespan = long, long, long
	switch what {
	case 0, 3:
		s.Config.AccessTokenLifespan = life
	case 1, 4:
		s.Config.RefreshTokenLifespan = life
	case 2:
		s.Config.AuthorizationCodeLifespan = life
	}
	live := !time.Now().Add(life).Before(time.Now().Add(time.Duration(dt) * time.Second))
	if what == 2 {
		r := vfOwnerReq(2)
		vfSet(r, "username", "u1")
		vfSet(r, "password", "p1")
		w := vfServe(s, r)
		pre := "http://r1/cb?code="
		loc := w.get("Location")
		vfAssume(len(loc) > len(pre))
		vfAdvance(dt)
		q := vfReq("POST", "/token")
		q.SetBasicAuth("c1", "s1")
		vfSet(q, "grant_type", "authorization_code")
		vfSet(q, "code", loc[len(pre):])
		vfSet(q, "redirect_uri", "http://r1/cb")
		w2 := vfServe(s, q)
		vfAssert((w2.status() == 200) == live, "P10.code-use")
		if live {
			vfReach("code-live")
		} else {
			vfReach("code-dead")
		}
		return
	}
	r := vfOwnerReq(0)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	w := vfServe(s, r)
	at, _ := vfJSONStr(w.body, "access_token")
	rt, _ := vfJSONStr(w.body, "refresh_token")
	vfAdvance(dt)
	switch what {
	case 0:
		ok, _ := vfAuthz(s, at, Scope{"x"})
		vfAssert(ok == live, "P10.access-use")
		if live {
			vfReach("access-live")
		} else {
			vfReach("access-dead")
		}
	case 1:
		ok, _ := vfAuthz(s, at, Scope{"x"})
		vfAssert(ok, "P10.access-unaffected")
		q := vfReq("POST", "/token")
		q.SetBasicAuth("c1", "s1")
		vfSet(q, "grant_type", "refresh_token")
		vfSet(q, "refresh_token", rt)
		w2 := vfServe(s, q)
		vfAssert((w2.status() == 200) == live, "P10.refresh-use")
		if live {
			vfReach("refresh-live")
		} else {
			vfReach("refresh-dead")
		}
	case 3, 4:
		q := vfReq("POST", "/introspect")
		q.SetBasicAuth("c1", "s1")
		tok := at
		if what == 4 {
			tok = rt
		}
		vfSet(q, "token", tok)
		w2 := vfServe(s, q)
		active, ok := vfJSONBool(w2.body, "active")
		vfAssert(ok && active == live, "P10.introspect-use")
		if live {
			n, ok := vfJSONInt(w2.body, "exp")
			vfAssert(ok && n == int(time.Now().Add(life).Unix())-dt, "P10.introspect-exp")
			vfReach("introspect-live")
		} else {
			vfReach("introspect-dead")
		}
	}
}

// Using a credential never extends or shortens its life: the stored expiry of
// every credential is the same instant before and after each use, however
// close to its end the use comes.
// bounds: 2 uses (authorize or introspect) at symbolic times within 0-3 s of each other before a final use; access lifespan 2 s, refresh lifespan 5 s
// reach: dead live
func vfH_P10_noextend() {
	m := vfNewModel("P10", "ui")
	m.password("c1")
	a := m.toks[0]
	for i := 0; i < 2; i++ {
		m.advance(vfInt("dt", 0, 3))
		if vfBool("use") {
			m.use(a, Scope{"x"})
		} else {
			m.introspect(m.pick("k", "ar"), "c1")
		}
	}
	m.advance(vfInt("dt", 0, 3))
	if m.alive(a) {
		vfReach("live")
	} else {
		vfReach("dead")
	}
	m.probe()
}

// No request moves the expiry of a stored credential, whenever in its life it
// comes.
// bounds: world of 3 credentials with a life of 1000 or 3600 s, one request or Authorize call at 0, 1, 10, 60, 600 s or half of the life before the end or just after issue, plus 0-3 s (symbolic), minus nothing or 1 ns; requests: Authorize, introspection and revocation by a stranger, redemption of the code or refresh token by the other client, and password and client-credentials requests with a wrong secret
// reach: used unchanged
func vfH_P10_frame() {
	s, k1, r1, a1 := vfWorld()
	life := []int{1000, 3600}[vfChoice("life", 2)]
	exp := time.Now().Add(time.Duration(life) * time.Second)
	for _, c := range []*ServerCredential{s.AuthorizationCodes[k1.SignatureString()], s.RefreshTokens[r1.SignatureString()], s.AccessTokens[a1.SignatureString()]} {
		c.ExpiresAt = exp
	}
	s.Config.AccessTokenLifespan, s.Config.RefreshTokenLifespan, s.Config.AuthorizationCodeLifespan = time.Duration(life)*time.Second, time.Duration(life)*time.Second, time.Duration(life)*time.Second
	before := []int{3, 10, 60, 600, life / 2, life}[vfChoice("before", 6)]
	vfAdvance(life - before)
	vfAdvance(vfInt("dt", 0, 3))
	if vfBool("ns") {
		time.Sleep(1)
	}
	sn := vfSnapshot(s)
	op := vfChoice("op", 8)
	switch op {
	case 0:
		ok, _ := vfAuthz(s, a1.String(), Scope{"x"})
		if ok {
			vfReach("used")
		}
	case 1, 2:
		q := vfReq("POST", "/introspect")
		q.SetBasicAuth("c1", "s1")
		tok := a1.String()
		if op == 2 {
			tok = r1.String()
		}
		vfSet(q, "token", tok)
		vfServe(s, q)
	default:
		r := vfAnyReq(op-3, k1, r1, a1)
		if op-3 < 2 {
			r.SetBasicAuth("c1", "wrong")
		} else { // the other client presents it
			r.SetBasicAuth("c2", "s2")
		}
		vfServe(s, r)
	}
	vfAssert(vfSame(sn, s), "P10.expiry-moved")
	vfReach("unchanged")
}

// The default configuration lets access tokens live one hour, refresh tokens
// seven days and codes ten minutes, and a server made from it issues them so.
// bounds: all 6 grants on a server with an untouched default configuration; issue at 0-1000 s symbolic
// reach: access refresh code
func vfH_P10_defaults() {
	s, k1, r1, _ := vfWorld()
	c := DefaultServerConfig(vfSecret(), Scope{"x", "y"})
	vfAssert(c.AccessTokenLifespan == time.Hour, "P10.default-access")
	vfAssert(c.RefreshTokenLifespan == 7*24*time.Hour, "P10.default-refresh")
	vfAssert(c.AuthorizationCodeLifespan == 10*time.Minute, "P10.default-code")
	o := NewServer(c)
	vfAssert(o.Config.AccessTokenLifespan == time.Hour && o.Config.RefreshTokenLifespan == 7*24*time.Hour && o.Config.AuthorizationCodeLifespan == 10*time.Minute, "P10.default-kept")
	o.Clients, o.Users = s.Clients, s.Users
	o.AuthorizationCodes, o.RefreshTokens, o.AccessTokens = s.AuthorizationCodes, s.RefreshTokens, s.AccessTokens
	far := time.Now().Add(1000 * time.Hour)
	o.AuthorizationCodes[k1.SignatureString()].ExpiresAt = far
	o.RefreshTokens[r1.SignatureString()].ExpiresAt = far
	vfAdvance(vfInt("at", 0, 1000))
	now := time.Now()
	op := vfChoice("op", 6)
	r := vfGrantReq(op%4, k1, r1, nil)
	if op >= 4 {
		r = vfOwnerReq(op - 3)
		vfSet(r, "username", "u1")
		vfSet(r, "password", "p1")
	} else {
		r.SetBasicAuth("c1", "s1")
	}
	sn := vfSnapshot(o)
	vfServe(o, r)
	na, nr, nk := vfAdded(sn.at, o.AccessTokens), vfAdded(sn.rt, o.RefreshTokens), vfAdded(sn.ac, o.AuthorizationCodes)
	vfAssert(len(na)+len(nr)+len(nk) > 0, "P10.default-issued")
	for _, k := range na {
		vfAssert(o.AccessTokens[k].ExpiresAt.Equal(now.Add(time.Hour)), "P10.default-access-expiry")
		vfReach("access")
	}
	for _, k := range nr {
		vfAssert(o.RefreshTokens[k].ExpiresAt.Equal(now.Add(7*24*time.Hour)), "P10.default-refresh-expiry")
		vfReach("refresh")
	}
	for _, k := range nk {
		vfAssert(o.AuthorizationCodes[k].ExpiresAt.Equal(now.Add(10*time.Minute)), "P10.default-code-expiry")
		vfReach("code")
	}
}

// A stored credential is used exactly up to its expiry instant, whatever that
// instant is.
// bounds: expiry of -100000000..100000000 s from now (symbolic) with 4 sub-second parts, or the zero time, 1970 or 9999; access token at the resource, refresh token and code at the token endpoint, access and refresh token at introspection
// reach: live dead
func vfH_P10_stored() {
	s, k1, r1, a1 := vfWorld()
	exp, dead := vfExpiry("exp")
	s.AccessTokens[a1.SignatureString()].ExpiresAt = exp
	s.RefreshTokens[r1.SignatureString()].ExpiresAt = exp
	s.AuthorizationCodes[k1.SignatureString()].ExpiresAt = exp
	what := vfChoice("what", 5)
	used := false
	if what == 0 {
		used, _ = vfAuthz(s, a1.String(), Scope{"x"})
	} else {
		r := vfGrantReq([]int{0, 2, 3, 4, 4}[what], k1, r1, a1)
		r.SetBasicAuth("c1", "s1")
		if what == 4 {
			vfSet(r, "token", r1.String())
		}
		w := vfServe(s, r)
		if what < 3 {
			used = w.status() == 200
		} else {
			active, ok := vfJSONBool(w.body, "active")
			vfAssert(ok, "P10.stored-introspected")
			used = active
		}
	}
	vfAssert(used != dead, "P10.stored-use")
	if used {
		vfReach("live")
	} else {
		vfReach("dead")
	}
}
