package oauth2

import "time"

// vfSplit is an independent reading of a scope parameter: maximal runs of
// bytes other than the space.
func vfSplit(s string) Scope {
	var r Scope
	start := -1
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ' ' {
			if start < 0 {
				start = i
			}
			continue
		}
		if start >= 0 {
			r = append(r, s[start:i])
			start = -1
		}
	}
	return r
}

func vfJoin(s Scope) string {
	r := ""
	for i, it := range s {
		if i > 0 {
			r += " "
		}
		r += it
	}
	return r
}

const vfScopeChars = " abxyAB.:/-_*"

// The password, client credentials, implicit and code grants succeed exactly
// when every requested scope item is among the allowed ones, and then grant
// exactly the requested scope; otherwise they answer invalid_scope.
// bounds: allowed scope of at most 2 items of 1-2 symbolic bytes; requested scope any string of at most 4 (thorough: 6) characters out of 13; 4 grants
// reach: granted exceeded empty
func vfH_P06_grants() {
	n := 4
	if vfThorough() {
		n = 6
	}
	s, _, _, _ := vfWorld()
	n = vfIn(n, 2)
	s.Config.AllowedScope = vfScopeN("allowed", 2, 2)
	op := vfChoice("op", 4)
	var r = vfOwnerReq(0)
	switch op {
	case 1:
		vfSet(r, "grant_type", "client_credentials")
	case 2, 3:
		r = vfOwnerReq(op - 1)
	}
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	raw := vfStringIn("raw", 0, n, vfScopeChars)
	vfSet(r, "scope", raw)
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	want := vfSplit(raw)
	if !vfIncludes(s.Config.AllowedScope, want) {
		vfAssert(vfSame(sn, s), "P06.exceeded-no-effect")
		if op < 2 {
			vfDenied(s, sn, w, "P06")
			name, _ := vfJSONStr(w.body, "error")
			vfAssert(name == "invalid_scope", "P06.exceeded-error")
		} else {
			loc := "http://r1/cb#error=invalid_scope"
			if op == 3 {
				loc = "http://r1/cb?error=invalid_scope"
			}
			vfAssert(w.get("Location") == loc, "P06.exceeded-redirect")
		}
		vfReach("exceeded")
		return
	}
	kind := 0
	if op >= 2 {
		kind = op - 1
	}
	c := vfIssued(s, sn, kind, "P06")
	vfAssert(vfScopeEq(c.Scope, want), "P06.granted-scope")
	if op < 2 {
		vfAssert(w.status() == 200, "P06.granted-status")
		str, ok := vfJSONStr(w.body, "scope")
		if len(want) == 0 {
			vfAssert(str == "", "P06.reported-empty")
		} else {
			vfAssert(ok && str == vfJoin(want), "P06.reported-scope")
		}
	}
	if len(want) == 0 {
		vfReach("empty")
	} else {
		vfReach("granted")
	}
}

// A refresh grants at most the scope of the refresh token: an empty request
// inherits it, a subset narrows both new tokens, anything else is refused
// without consuming the refresh token.
// bounds: refresh token scope of at most 2 items of 1-2 symbolic bytes; requested scope any string of at most 4 (thorough: 6) characters out of 13; server scope unrelated
// reach: inherited narrowed exceeded
func vfH_P06_refresh() {
	n := 4
	if vfThorough() {
		n = 6
	}
	s, _, r1, _ := vfWorld()
	n = vfIn(n, 2)
	have := vfScopeN("have", 2, 2)
	s.RefreshTokens[r1.SignatureString()].Scope = have
	raw := vfStringIn("raw", 0, n, vfScopeChars)
	r := vfGrantReq(3, nil, r1, nil)
	r.SetBasicAuth("c1", "s1")
	vfSet(r, "scope", raw)
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	want := vfSplit(raw)
	if !vfIncludes(have, want) {
		vfDenied(s, sn, w, "P06r")
		name, _ := vfJSONStr(w.body, "error")
		vfAssert(name == "invalid_scope", "P06.refresh-error")
		vfReach("exceeded")
		return
	}
	vfReach("narrowed")
	if len(want) == 0 {
		want = have
		vfReach("inherited")
	}
	vfAssert(w.status() == 200, "P06.refresh-status")
	na, nr := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens)
	vfAssert(len(na) == 1 && len(nr) == 1, "P06.refresh-issues-pair")
	vfAssert(vfScopeEq(s.AccessTokens[na[0]].Scope, want), "P06.refresh-access-scope")
	vfAssert(vfScopeEq(s.RefreshTokens[nr[0]].Scope, want), "P06.refresh-refresh-scope")
	str, _ := vfJSONStr(w.body, "scope")
	vfAssert(str == vfJoin(want), "P06.refresh-reported")
	vfAssert(vfScopeEq(have, sn.rt[0].val.Scope) || len(sn.rt) > 1, "P06.refresh-source-scope")
}

// Redeeming a code grants the scope approved at authorization, whatever scope
// the token request asks for.
// bounds: code scope of at most 2 items of 1-2 symbolic bytes; requested scope any string of at most 4 characters out of 13
// reach: granted
func vfH_P06_code() {
	s, k1, _, _ := vfWorld()
	have := vfScopeN("have", 2, 2)
	s.AuthorizationCodes[k1.SignatureString()].Scope = have
	r := vfGrantReq(2, k1, nil, nil)
	r.SetBasicAuth("c1", "s1")
	vfSet(r, "scope", vfStringIn("raw", 0, 4, vfScopeChars))
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(w.status() == 200, "P06.code-status")
	na, nr := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens)
	vfAssert(len(na) == 1 && len(nr) == 1, "P06.code-issues-pair")
	vfAssert(vfScopeEq(s.AccessTokens[na[0]].Scope, have), "P06.code-access-scope")
	vfAssert(vfScopeEq(s.RefreshTokens[nr[0]].Scope, have), "P06.code-refresh-scope")
	str, _ := vfJSONStr(w.body, "scope")
	vfAssert(str == vfJoin(have), "P06.code-reported")
	vfReach("granted")
}

// Over a chain of two refreshes no token ever exceeds the original scope nor
// regains an item a previous refresh dropped.
// bounds: original scope of 2-3 items of 1 symbolic byte; two requested scopes of at most 3 characters out of 13
// reach: chain regain-refused
func vfH_P06_chain() {
	s, _, r1, _ := vfWorld()
	var orig Scope
	k := 2 + vfChoice("k", vfIn(2, 1))
	for i := 0; i < k; i++ {
		orig = append(orig, vfItem1("orig", 1))
	}
	s.RefreshTokens[r1.SignatureString()].Scope = orig
	cur := orig
	tok := r1.String()
	for step := 0; step < 2; step++ {
		r := vfReq("POST", "/token")
		r.SetBasicAuth("c1", "s1")
		vfSet(r, "grant_type", "refresh_token")
		vfSet(r, "refresh_token", tok)
		raw := vfStringIn("raw", 0, vfIn(3, 2), vfScopeChars)
		vfSet(r, "scope", raw)
		w := vfServe(s, r)
		want := vfSplit(raw)
		if !vfIncludes(cur, want) {
			vfAssert(w.status() == 400, "P06.chain-refused")
			if step == 1 && vfIncludes(orig, want) {
				vfReach("regain-refused")
			}
			return
		}
		vfAssert(w.status() == 200, "P06.chain-status")
		if len(want) > 0 {
			cur = want
		}
		rt, ok := vfJSONStr(w.body, "refresh_token")
		at, ok2 := vfJSONStr(w.body, "access_token")
		vfAssert(ok && ok2, "P06.chain-tokens")
		ac, found := s.AccessTokens[vfSigOf(at)]
		vfAssert(found && vfScopeEq(ac.Scope, cur), "P06.chain-scope")
		tok = rt
	}
	vfReach("chain")
}

// The scope enforced on use is the one granted: a token obtained with scope S
// authorizes a requirement exactly when S includes it.
// bounds: requested scope of at most 3 characters out of 13 with everything allowed; required scope of at most 2 items of 1-2 bytes
// reach: allowed refused
func vfH_P06_use() {
	s, _, _, _ := vfWorld()
	raw := vfStringIn("raw", 0, 3, vfScopeChars)
	got := vfSplit(raw)
	s.Config.AllowedScope = got
	r := vfOwnerReq(0)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	vfSet(r, "scope", raw)
	w := vfServe(s, r)
	vfAssert(w.status() == 200, "P06.use-status")
	tok, _ := vfJSONStr(w.body, "access_token")
	req := vfScopeN("req", 2, 2)
	ok, w2 := vfAuthz(s, tok, req)
	vfAssert(ok == vfIncludes(got, req), "P06.use-iff")
	if ok {
		vfReach("allowed")
	} else {
		vfAssert(w2.status() == 403, "P06.use-status")
		vfReach("refused")
	}
}

var _ = time.Now

// However long a chain of refreshes, the scope is the original one until a
// refresh narrows it, and the narrowed one from then on.
// bounds: chains of 10, 40 and 110 (thorough: 10, 110 and 260) refreshes, narrowed at the first, middle or last step or not at all; then one refresh with a scope out of 4
// reach: kept refused
func vfH_P06_long() {
	n := []int{10, 40, 110}[vfChoice("n", 3)]
	if vfThorough() {
		n = []int{10, 110, 260}[vfChoice("n", 3)]
	}
	m := vfNewModel("P06", "rui")
	m.password("c1")
	at := []int{-1, 0, n / 2, n - 1}[vfChoice("narrow", 4)]
	m.long(n, at, -1, 0)
	last := m.toks[len(m.toks)-1]
	a := m.toks[len(m.toks)-2]
	m.use(a, Scope{"y"})
	m.use(a, Scope{"x"})
	m.introspect(a, "c1")
	if m.refresh(last, "c1", []string{"", "x", "y", "x y"}[vfChoice("scope", 4)]) {
		m.probe()
		vfReach("kept")
	} else {
		vfReach("refused")
	}
}

// The number of scope items does not matter.
// bounds: allowed or refreshable scope of 17, 40 or 130 items, one of them (first, middle or last) with a symbolic byte; requested: all of it in order or reversed, or all of it and one item with a symbolic byte more; password, client credentials, implicit and code grants and refresh
// reach: granted exceeded
func vfH_P06_many() {
	s, _, r1, _ := vfWorld()
	vfAssume(vfNuis == 0)
	have := vfManyItems([]int{17, 40, 130}[vfChoice("n", 3)])
	op := vfChoice("op", 5)
	r := vfOwnerReq(0)
	switch op {
	case 1:
		vfSet(r, "grant_type", "client_credentials")
	case 2, 3:
		r = vfOwnerReq(op - 1)
	case 4:
		vfSet(r, "grant_type", "refresh_token")
		vfSet(r, "refresh_token", r1.String())
		s.RefreshTokens[r1.SignatureString()].Scope = have
	}
	if op != 4 {
		s.Config.AllowedScope = have
	} else {
		s.Config.AllowedScope = Scope{"q"} // must not matter any more
	}
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	want := append(Scope{}, have...)
	exceeds := false
	switch vfChoice("want", 3) {
	case 1:
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	case 2:
		x := "item" + vfStringIn("x", 1, 1, vfWord)
		want = append(want, x)
		exceeds = !vfIncludes(have, Scope{x})
	}
	vfSet(r, "scope", vfJoin(want))
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	if exceeds {
		vfAssert(vfSame(sn, s), "P06.many-exceeded-no-effect")
		vfAssert(w.status() == 400 || w.status() == 303 && (op == 2 || op == 3), "P06.many-exceeded-status")
		vfReach("exceeded")
		return
	}
	kind := 0
	if op == 2 || op == 3 {
		kind = op - 1
	}
	if op == 4 {
		na, nr := vfAdded(sn.at, s.AccessTokens), vfAdded(sn.rt, s.RefreshTokens)
		vfAssert(len(na) == 1 && len(nr) == 1, "P06.many-refreshed")
		vfAssert(vfScopeEq(s.AccessTokens[na[0]].Scope, want) && vfScopeEq(s.RefreshTokens[nr[0]].Scope, want), "P06.many-refreshed-scope")
	} else {
		c := vfIssued(s, sn, kind, "P06.many")
		vfAssert(vfScopeEq(c.Scope, want), "P06.many-scope")
	}
	vfReach("granted")
}
