package oauth2

import "time"

type vfKV struct{ k, v string }

func vfHexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// vfUnq is an independent form decoder for one key or value.
func vfUnq(s string) (string, bool) {
	var r []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			r = append(r, ' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := vfHexVal(s[i+1]), vfHexVal(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			r = append(r, byte(h*16+l))
			i += 2
		default:
			r = append(r, s[i])
		}
	}
	return string(r), true
}

// vfPairs decodes a form-encoded component.
func vfPairs(s string) ([]vfKV, bool) {
	var r []vfKV
	start := 0
	if s == "" {
		return r, true
	}
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '&' {
			continue
		}
		seg := s[start:i]
		start = i + 1
		eq := -1
		for j := 0; j < len(seg); j++ {
			if seg[j] == '=' {
				eq = j
				break
			}
		}
		if eq < 0 {
			return nil, false
		}
		k, ok1 := vfUnq(seg[:eq])
		v, ok2 := vfUnq(seg[eq+1:])
		if !ok1 || !ok2 {
			return nil, false
		}
		r = append(r, vfKV{k, v})
	}
	return r, true
}

// vfLocSplit splits a Location into everything before '?', the query and the
// fragment.
func vfLocSplit(loc string) (base, query, frag string, hasQ, hasF bool) {
	base = loc
	for i := 0; i < len(base); i++ {
		if base[i] == '#' {
			base, frag, hasF = base[:i], base[i+1:], true
			break
		}
	}
	for i := 0; i < len(base); i++ {
		if base[i] == '?' {
			base, query, hasQ = base[:i], base[i+1:], true
			break
		}
	}
	return
}

func vfPairsHave(p []vfKV, k, v string) bool {
	for _, x := range p {
		if x.k == k && x.v == v {
			return true
		}
	}
	return false
}

func vfPairVal(p []vfKV, k string) string {
	for _, x := range p {
		if x.k == k {
			return x.v
		}
	}
	return ""
}

// vfStateParam yields a state parameter from one of four regimes.
func vfStateParam(n int) string {
	switch vfChoice("state.regime", 4) {
	case 1:
		return "a b&c=d#e?f%41+\"<>\x00\xff\u00e9/."
	case 2:
		return vfStringIn("state", 8, 8, "ab-_.~") + vfString("statetail", 1, 1)
	case 3:
		return ""
	}
	return vfString("state", 1, n)
}

// A front-channel response carries exactly what its flow defines, in exactly
// the component its flow defines: an implicit grant answers in the fragment
// with token_type, access_token, expires_in, scope and state and never a
// refresh token; a code grant answers in the query with code and state only.
// The redirect URI's own query survives and state comes back byte for byte.
// bounds: state of 0-2 (thorough: 0-3) arbitrary bytes, 9 bytes, or a fixed string of specials; scope absent, one or two items; registered redirect URI with and without an own query; both flows
// reach: implicit code state no-state own-query
func vfH_P11_success() {
	n := 2
	if vfThorough() {
		n = 3
	}
	s, _, _, _ := vfWorld()
	op := 1 + vfChoice("op", 2)
	r := vfOwnerReq(op)
	own := vfBool("own")
	redir := "http://r1/cb"
	if own {
		redir = "http://r1/cb?own=1"
		vfReach("own-query")
	}
	s.Clients["c1"].RedirectURI = redir
	vfSet(r, "redirect_uri", redir)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	scope := []string{"", "x", "y x"}[vfChoice("scope", 3)]
	vfSet(r, "scope", scope)
	state := vfStateParam(n)
	vfSet(r, "state", state)
	s.Config.AccessTokenLifespan = 77 * time.Second
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1 && w.status() == 303, "P11.redirect-status")
	vfAssert(len(w.body) == 0, "P11.redirect-empty-body")
	vfAssert(len(w.snap["Location"]) == 1, "P11.one-location")
	base, query, frag, hasQ, hasF := vfLocSplit(w.get("Location"))
	vfAssert(base == "http://r1/cb", "P11.base")
	qp, qok := vfPairs(query)
	fp, fok := vfPairs(frag)
	vfAssert(qok && fok, "P11.well-formed")
	if own {
		vfAssert(vfPairsHave(qp, "own", "1"), "P11.own-query-kept")
	}
	nOwn := 0
	if own {
		nOwn = 1
	}
	extra := 0
	if state != "" {
		extra++
		vfReach("state")
	} else {
		vfReach("no-state")
	}
	if op == 1 {
		vfAssert(hasF && len(qp) == nOwn && hasQ == own, "P11.implicit-uses-fragment")
		na := vfAdded(sn.at, s.AccessTokens)
		vfAssert(len(na) == 1, "P11.implicit-one-token")
		at := vfPairVal(fp, "access_token")
		vfAssert(vfSigOf(at) == na[0], "P11.implicit-token")
		ok, _ := vfAuthz(s, at, vfSplit(scope))
		vfAssert(ok, "P11.implicit-token-works")
		vfAssert(vfPairsHave(fp, "token_type", "bearer") && vfPairsHave(fp, "expires_in", "77"), "P11.implicit-fields")
		if scope != "" {
			extra++
			vfAssert(vfPairsHave(fp, "scope", scope), "P11.implicit-scope")
		} else {
			vfAssert(vfPairVal(fp, "scope") == "", "P11.implicit-no-scope")
			for _, x := range fp {
				if x.k == "scope" {
					extra++
				}
			}
		}
		if state != "" {
			vfAssert(vfPairsHave(fp, "state", state), "P11.implicit-state")
		}
		vfAssert(len(fp) == 3+extra, "P11.implicit-nothing-else")
		vfAssert(len(s.RefreshTokens) == len(sn.rt), "P11.implicit-no-refresh-token")
		vfReach("implicit")
		return
	}
	vfAssert(!hasF, "P11.code-uses-query")
	nk := vfAdded(sn.ac, s.AuthorizationCodes)
	vfAssert(len(nk) == 1, "P11.code-one")
	code := vfPairVal(qp, "code")
	vfAssert(vfSigOf(code) == nk[0], "P11.code-value")
	tk, err := ParseHS256Token(vfSecret(), code)
	vfAssert(err == nil && tk.SignatureString() == nk[0], "P11.code-valid")
	if state != "" {
		vfAssert(vfPairsHave(qp, "state", state), "P11.code-state")
	}
	vfAssert(len(qp) == 1+nOwn+extra, "P11.code-nothing-else")
	vfAssert(len(s.AccessTokens) == len(sn.at) && len(s.RefreshTokens) == len(sn.rt), "P11.code-no-token")
	vfReach("code")
}

// A refused front-channel request with a valid client and redirect URI
// reports the error and the state in the component of its flow, and carries
// no credential.
// bounds: state of 0-2 (thorough: 0-3) arbitrary bytes, 9 bytes, or a fixed string of specials; bad scope, bad password or unknown user; with and without an own query; both flows
// reach: fragment query
func vfH_P11_error() {
	n := 2
	if vfThorough() {
		n = 3
	}
	s, _, _, _ := vfWorld()
	op := 1 + vfChoice("op", 2)
	r := vfOwnerReq(op)
	own := vfBool("own")
	redir := "http://r1/cb"
	if own {
		redir = "http://r1/cb?own=1"
	}
	s.Clients["c1"].RedirectURI = redir
	vfSet(r, "redirect_uri", redir)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	why := vfChoice("why", 4)
	want := "access_denied"
	switch why {
	case 0:
		vfSet(r, "scope", "x z")
		want = "invalid_scope"
	case 1:
		vfSet(r, "password", "p2")
	case 2:
		vfSet(r, "username", "u9")
	case 3:
		delete(r.PostForm, "password")
	}
	state := vfStateParam(n)
	vfSet(r, "state", state)
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(vfSame(sn, s), "P11.error-no-effect")
	vfAssert(len(w.codes) == 1 && w.status() == 303, "P11.error-status")
	vfAssert(len(w.snap["Location"]) == 1, "P11.error-one-location")
	base, query, frag, _, hasF := vfLocSplit(w.get("Location"))
	vfAssert(base == "http://r1/cb", "P11.error-base")
	qp, qok := vfPairs(query)
	fp, fok := vfPairs(frag)
	vfAssert(qok && fok, "P11.error-well-formed")
	nOwn := 0
	if own {
		nOwn = 1
		vfAssert(vfPairsHave(qp, "own", "1"), "P11.error-own-query-kept")
	}
	p := qp
	if op == 1 {
		p = fp
		vfAssert(hasF && len(qp) == nOwn, "P11.error-uses-fragment")
		vfReach("fragment")
	} else {
		vfAssert(!hasF, "P11.error-uses-query")
		vfReach("query")
	}
	vfAssert(vfPairsHave(p, "error", want), "P11.error-name")
	if state != "" {
		vfAssert(vfPairsHave(p, "state", state), "P11.error-state")
	} else {
		vfAssert(vfPairVal(p, "state") == "", "P11.error-no-state")
	}
	for _, x := range p {
		vfAssert(x.k != "code" && x.k != "access_token" && x.k != "refresh_token", "P11.error-no-credential")
	}
}

// A long state comes back byte for byte like a short one, on success and in
// errors, and a long own query survives.
// bounds: state, or the own query of the registered redirect URI, of 70, 300, 1100 or 4200 bytes, one of them (at the start, middle or end) arbitrary (one of 12 characters in the own query); both flows; granted, wrong password or bad scope
// reach: state own
func vfH_P11_long() {
	s, _, _, _ := vfWorld()
	vfAssume(vfNuis == 0)
	op := 1 + vfChoice("op", 2)
	r := vfOwnerReq(op)
	redir, state := "http://r1/cb", "st"
	own := ""
	if vfBool("own") {
		own = vfLongIn("own", 4200, vfURIChars)
		redir += "?own=" + vfPct(own)
		vfReach("own")
	} else {
		state = vfLong("state", 4200)
		vfReach("state")
	}
	s.Clients["c1"].RedirectURI = redir
	vfSet(r, "redirect_uri", vfPct(redir))
	vfSet(r, "state", state)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	vfSet(r, "scope", "x")
	bad := vfChoice("bad", 3)
	switch bad {
	case 1:
		vfSet(r, "password", "p2")
	case 2:
		vfSet(r, "scope", "z")
	}
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1 && w.status() == 303 && len(w.snap["Location"]) == 1, "P11.long-redirect")
	base, query, frag, _, hasF := vfLocSplit(w.get("Location"))
	vfAssert(base == "http://r1/cb", "P11.long-base")
	qp, qok := vfPairs(query)
	fp, fok := vfPairs(frag)
	vfAssert(qok && fok, "P11.long-well-formed")
	if own != "" {
		vfAssert(vfPairsHave(qp, "own", own), "P11.long-own-query-kept")
	}
	p := qp
	if op == 1 {
		p = fp
	}
	vfAssert(hasF == (op == 1), "P11.long-component")
	vfAssert(vfPairsHave(p, "state", state), "P11.long-state")
	switch bad {
	case 0:
		vfAssert(vfPairVal(p, "error") == "" && (vfPairVal(p, "code") != "") == (op == 2) && (vfPairVal(p, "access_token") != "") == (op == 1), "P11.long-granted")
	case 1:
		vfAssert(vfPairsHave(p, "error", "access_denied"), "P11.long-denied")
	case 2:
		vfAssert(vfPairsHave(p, "error", "invalid_scope"), "P11.long-scope")
	}
}
