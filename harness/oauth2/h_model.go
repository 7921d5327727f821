package oauth2

import (
	"net/http"
	"time"
)

// vfMTok is the reference model's view of one issued credential.
type vfMTok struct {
	str    string
	kind   byte // 'a', 'r' or 'c'
	client string
	user   string
	scope  Scope
	exp    int // seconds since start
	dead   bool
	used   bool
	root   *vfMTok // the code it descends from
}

// vfModel runs real requests against the server and an independent reference
// model side by side. Only the aspects named in lens are asserted; a
// divergence in any other aspect abandons the path.
type vfModel struct {
	s                   *Server
	t                   int
	toks                []*vfMTok
	lifeA, lifeR, lifeC int
	p                   string
	lens                string
}

func vfNewModel(p, lens string) *vfModel {
	s := vfNewServer(Scope{"x", "y"})
	s.Clients["c1"] = &ServerEntity{Secret: "s1", Confidential: true, RedirectURI: "http://r1/cb"}
	s.Clients["c2"] = &ServerEntity{Secret: "s2", Confidential: true, RedirectURI: "http://r2/cb"}
	s.Clients["c3"] = &ServerEntity{RedirectURI: "http://r3/cb"}
	s.Users["u1"] = &ServerEntity{Secret: "p1"}
	m := &vfModel{s: s, p: p, lens: lens, lifeA: 2, lifeR: 5, lifeC: 3}
	s.Config.AccessTokenLifespan = 2 * time.Second
	s.Config.RefreshTokenLifespan = 5 * time.Second
	s.Config.AuthorizationCodeLifespan = 3 * time.Second
	return m
}

// expect checks one aspect: 'u' use of access tokens, 'c' code exchange,
// 'r' refresh, 'v' revocation, 'i' introspection, 'g' other grants.
func (m *vfModel) expect(cond bool, aspect byte, what string) {
	for i := 0; i < len(m.lens); i++ {
		if m.lens[i] == aspect {
			vfAssert(cond, m.p+".hist-"+what)
			return
		}
	}
	vfAssume(cond)
}

func (m *vfModel) alive(k *vfMTok) bool {
	if k.dead {
		return false
	}
	return k.exp >= m.t
}

func (m *vfModel) auth(r *http.Request, client string) {
	switch client {
	case "c1":
		r.SetBasicAuth("c1", "s1")
	case "c2":
		r.SetBasicAuth("c2", "s2")
	default:
		r.SetBasicAuth(client, "")
	}
}

func (m *vfModel) redirect(client string) string { return "http://r" + client[1:] + "/cb" }

// take records the tokens of a successful token response.
func (m *vfModel) take(w *vfRec, client, user string, scope Scope, root *vfMTok, aspect byte) {
	at, ok := vfJSONStr(w.body, "access_token")
	m.expect(ok && at != "", aspect, "access-token-returned")
	for _, k := range m.toks {
		m.expect(k.str != at, aspect, "access-token-fresh")
	}
	m.toks = append(m.toks, &vfMTok{str: at, kind: 'a', client: client, user: user, scope: scope, exp: m.t + m.lifeA, root: root})
	rt, ok := vfJSONStr(w.body, "refresh_token")
	m.expect(ok && rt != "", aspect, "refresh-token-returned")
	for _, k := range m.toks {
		m.expect(k.str != rt, aspect, "refresh-token-fresh")
	}
	m.toks = append(m.toks, &vfMTok{str: rt, kind: 'r', client: client, user: user, scope: scope, exp: m.t + m.lifeR, root: root})
}

func (m *vfModel) refuse(w *vfRec, aspect byte, what string) {
	m.expect(w.status() >= 400 && w.status() < 500, aspect, what)
	_, ok := vfJSONStr(w.body, "access_token")
	m.expect(!ok, aspect, what+"-no-token")
}

func (m *vfModel) password(client string) {
	r := vfReq("POST", "/token")
	m.auth(r, client)
	vfSet(r, "grant_type", "password")
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	vfSet(r, "scope", "x y")
	w := vfServe(m.s, r)
	m.expect(w.status() == 200, 'g', "password-ok")
	m.take(w, client, "u1", Scope{"x", "y"}, nil, 'g')
}

func (m *vfModel) authorize(client string) *vfMTok {
	r := vfReq("POST", "/authorize")
	vfSet(r, "response_type", "code")
	vfSet(r, "client_id", client)
	vfSet(r, "redirect_uri", m.redirect(client))
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	vfSet(r, "scope", "x y")
	w := vfServe(m.s, r)
	m.expect(w.status() == 303, 'g', "authorize-ok")
	pre := m.redirect(client) + "?code="
	loc := w.get("Location")
	m.expect(len(loc) > len(pre) && loc[:len(pre)] == pre, 'g', "authorize-location")
	k := &vfMTok{str: loc[len(pre):], kind: 'c', client: client, user: "u1", scope: Scope{"x", "y"}, exp: m.t + m.lifeC}
	m.toks = append(m.toks, k)
	return k
}

func (m *vfModel) redeem(k *vfMTok, client string) bool {
	r := vfReq("POST", "/token")
	m.auth(r, client)
	vfSet(r, "grant_type", "authorization_code")
	vfSet(r, "code", k.str)
	vfSet(r, "redirect_uri", m.redirect(client))
	w := vfServe(m.s, r)
	if k.kind == 'c' && k.used {
		// replay: every token that descends from the code dies
		for _, d := range m.toks {
			if d.root == k {
				d.dead = true
			}
		}
		m.refuse(w, 'c', "replay-refused")
		return false
	}
	if k.kind != 'c' || !m.alive(k) || k.client != client {
		m.refuse(w, 'c', "redeem-refused")
		return false
	}
	m.expect(w.status() == 200, 'c', "redeem-ok")
	k.used = true
	m.take(w, client, k.user, k.scope, k, 'c')
	return true
}

func (m *vfModel) refresh(k *vfMTok, client, scope string) bool {
	r := vfReq("POST", "/token")
	m.auth(r, client)
	vfSet(r, "grant_type", "refresh_token")
	vfSet(r, "refresh_token", k.str)
	vfSet(r, "scope", scope)
	w := vfServe(m.s, r)
	want := vfSplit(scope)
	if k.kind != 'r' || !m.alive(k) || k.client != client || !vfIncludes(k.scope, want) {
		m.refuse(w, 'r', "refresh-refused")
		return false
	}
	if len(want) == 0 {
		want = k.scope
	}
	m.expect(w.status() == 200, 'r', "refresh-ok")
	k.dead = true
	m.take(w, client, k.user, want, k.root, 'r')
	return true
}

func (m *vfModel) revoke(k *vfMTok, client, hint string) {
	r := vfReq("POST", "/revoke")
	m.auth(r, client)
	vfSet(r, "token", k.str)
	if hint != "" {
		vfSet(r, "token_type_hint", hint)
	}
	w := vfServe(m.s, r)
	if k.kind == 'c' || k.dead {
		// not (or no longer) a stored token: nothing to do
		m.expect(w.status() == 200, 'v', "revoke-unknown-ok")
		return
	}
	if k.client != client {
		m.expect(w.status() == 401, 'v', "revoke-foreign-refused")
		return
	}
	m.expect(w.status() == 200, 'v', "revoke-ok")
	k.dead = true
}

func (m *vfModel) use(k *vfMTok, req Scope) {
	ok, w := vfAuthz(m.s, k.str, req)
	want := k.kind == 'a' && m.alive(k) && vfIncludes(k.scope, req)
	m.expect(ok == want, 'u', "use-iff")
	if !ok {
		m.expect(w.status() == 401 || w.status() == 403, 'u', "use-refused-status")
	}
}

func (m *vfModel) introspect(k *vfMTok, client string) {
	r := vfReq("POST", "/introspect")
	m.auth(r, client)
	vfSet(r, "token", k.str)
	w := vfServe(m.s, r)
	if k.kind != 'c' && !k.dead && k.client != client {
		m.expect(w.status() == 401, 'i', "introspect-foreign-refused")
		return
	}
	m.expect(w.status() == 200, 'i', "introspect-ok")
	active, ok := vfJSONBool(w.body, "active")
	m.expect(ok, 'i', "introspect-active-present")
	m.expect(active == (k.kind != 'c' && m.alive(k)), 'i', "introspect-active-iff")
	if active {
		u, _ := vfJSONStr(w.body, "username")
		c, _ := vfJSONStr(w.body, "client_id")
		sc, _ := vfJSONStr(w.body, "scope")
		m.expect(u == k.user && c == k.client && sc == vfJoin(k.scope), 'i', "introspect-fields")
	}
}

func (m *vfModel) advance(dt int) {
	vfAdvance(dt)
	m.t += dt
}

// probe checks every credential ever issued against the model.
func (m *vfModel) probe() {
	for _, k := range m.toks {
		m.use(k, nil)
		m.introspect(k, k.client)
	}
	m.expect(vfUnlocked(m.s), 'u', "lock-released")
}

// pick chooses one known credential of the given kinds.
func (m *vfModel) pick(name, kinds string) *vfMTok {
	var l []*vfMTok
	for _, k := range m.toks {
		for i := 0; i < len(kinds); i++ {
			if kinds[i] == k.kind {
				l = append(l, k)
			}
		}
	}
	if len(l) == 0 {
		vfAssume(false)
	}
	return l[vfChoice(name, len(l))]
}

// long refreshes the newest refresh token n times in a row, narrowing the
// scope to "x" at step narrow and letting dt seconds pass at step pause.
func (m *vfModel) long(n, narrow, pause, dt int) {
	for i := 0; i < n; i++ {
		var k *vfMTok
		for _, t := range m.toks {
			if t.kind == 'r' {
				k = t
			}
		}
		scope := ""
		if i == narrow {
			scope = "x"
		}
		if i == pause {
			m.advance(dt)
		}
		if !m.refresh(k, "c1", scope) {
			return
		}
	}
}
