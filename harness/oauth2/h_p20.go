package oauth2

// vfFidelity checks a redirect: the target is the given one, its own query
// parameters are all there, the parameters arrive byte for byte in the chosen
// component and nothing else is added.
func vfFidelity(w *vfRec, err error, base string, own []vfKV, params []vfKV, frag bool, p string) {
	vfAssert(err == nil, p+"-no-error")
	vfAssert(len(w.codes) == 1 && w.status() == 303, p+"-status")
	vfAssert(len(w.body) == 0, p+"-body")
	vfAssert(len(w.snap["Location"]) == 1, p+"-one-location")
	b, q, f, _, hasF := vfLocSplit(w.get("Location"))
	vfAssert(b == base, p+"-target")
	qp, ok1 := vfPairs(q)
	fp, ok2 := vfPairs(f)
	vfAssert(ok1 && ok2, p+"-well-formed")
	for _, kv := range own {
		vfAssert(vfCount(qp, kv) >= vfCount(own, kv), p+"-own-query-kept")
	}
	got := qp
	n := len(own) + len(params)
	if frag {
		vfAssert(hasF, p+"-fragment")
		vfAssert(len(qp) == len(own), p+"-query-untouched")
		got = fp
		n = len(params)
	} else {
		vfAssert(!hasF, p+"-no-fragment")
	}
	for _, kv := range params {
		vfAssert(vfPairsHave(got, kv.k, kv.v), p+"-parameter")
	}
	vfAssert(len(got) == n, p+"-nothing-else")
}

func vfCount(l []vfKV, kv vfKV) int {
	n := 0
	for _, x := range l {
		if x.k == kv.k && x.v == kv.v {
			n++
		}
	}
	return n
}

// A redirect carries its parameters byte for byte to the given target, in the
// query or in the fragment as asked, whatever bytes they contain, and keeps
// the target's own query.
// bounds: 8 target URIs with and without own query, port, user info, encoded path, custom scheme; one parameter with name and value of 1-2 and 0-2 (thorough: 0-3) arbitrary bytes, or a value of 32 unreserved bytes and an arbitrary one, or 2 parameters; query and fragment
// reach: query fragment own
func vfH_P20_redirect() {
	n := 2
	if vfThorough() {
		n = 3
	}
	type tgt struct {
		uri, base string
		own       []vfKV
	}
	ts := []tgt{
		{"http://r1/cb", "http://r1/cb", nil},
		{"http://r1", "http://r1", nil},
		{"https://u@r1:8080/a%2Fb/c", "https://u@r1:8080/a%2Fb/c", nil},
		{"http://r1/cb?own=1", "http://r1/cb", []vfKV{{"own", "1"}}},
		{"http://r1/cb?a=1&a=2&b=%26+x", "http://r1/cb", []vfKV{{"a", "1"}, {"a", "2"}, {"b", "& x"}}},
		{"/local?z=", "/local", []vfKV{{"z", ""}}},
		{"myapp:/cb", "myapp:/cb", nil},
		{"http://r1/cb?state=mine", "http://r1/cb", []vfKV{{"state", "mine"}}},
	}
	t := ts[vfChoice("target", len(ts))]
	frag := vfBool("frag")
	var params []vfKV
	switch vfChoice("params", 4) {
	case 0:
		params = []vfKV{{"state", vfString("v", 0, n)}}
	case 1:
		params = []vfKV{{vfString("k", 1, 2), "v w"}}
	case 2:
		params = []vfKV{{"long", vfStringIn("lv", 32, 32, "ab-_.~") + vfString("tail", 1, 1)}}
	case 3:
		params = []vfKV{{"error", "x"}, {"state", vfString("v", 1, 1)}}
	}
	m := map[string]string{}
	for _, kv := range params {
		m[kv.k] = kv.v
	}
	w := vfNewRec()
	err := WriteRedirect(w, t.uri, m, frag)
	vfFidelity(w, err, t.base, t.own, params, frag, "P20.redirect")
	if frag {
		vfReach("fragment")
	} else {
		vfReach("query")
	}
	if len(t.own) > 0 {
		vfReach("own")
	}
}

// The response types and errors of this package use that redirect for their
// own parameters.
// bounds: token response (fragment), code response (query), error (either); one attribute at a time symbolic of 0-2 (thorough: 0-3) arbitrary bytes, token lifetimes -1, 0 and 3600
// reach: token code error
func vfH_P20_responses() {
	n := 2
	if vfThorough() {
		n = 3
	}
	w := vfNewRec()
	var ps []vfKV
	add := func(k, v string) {
		if v != "" {
			ps = append(ps, vfKV{k, v})
		}
	}
	uri := "http://r1/cb?own=1"
	own := []vfKV{{"own", "1"}}
	f := vfChoice("field", 5)
	sym := func(i int, def string) string {
		if i == f {
			return vfString("v", 0, n)
		}
		return def
	}
	switch vfChoice("what", 3) {
	case 0:
		exp := vfChoice("exp", 3)
		r := NewBearerTokenResponse(sym(0, "at"), []int{3600, 0, -1}[exp])
		r.TokenType = sym(1, "bearer")
		r.RefreshToken = sym(2, "")
		sc := sym(3, "")
		if sc != "" {
			r.Scope = Scope{sc, "z"}
		}
		state := sym(4, "st")
		r.SetRedirect(uri, state)
		err := WriteTokenResponse(w, r)
		ps = []vfKV{{"token_type", r.TokenType}, {"access_token", r.AccessToken}, {"expires_in", []string{"3600", "0", "-1"}[exp]}}
		add("refresh_token", r.RefreshToken)
		if sc != "" {
			add("scope", sc+" z")
		}
		add("state", state)
		vfFidelity(w, err, "http://r1/cb", own, ps, true, "P20.token")
		vfReach("token")
	case 1:
		code, state := sym(0, "k"), sym(1, "")
		err := WriteCodeResponse(w, NewCodeResponse(code, uri, state))
		ps = []vfKV{{"code", code}}
		add("state", state)
		vfFidelity(w, err, "http://r1/cb", own, ps, false, "P20.code")
		vfReach("code")
	case 2:
		e := InvalidRequest(sym(0, "d"))
		e.URI = sym(1, "")
		e.Realm = sym(2, "")
		sc := sym(3, "")
		if sc != "" {
			e.Scope = Scope{sc, "z"}
		}
		state := sym(4, "st")
		frag := vfBool("frag")
		e.SetRedirect(uri, state, frag)
		err := WriteError(w, e)
		ps = []vfKV{{"error", "invalid_request"}}
		add("error_description", e.Description)
		add("error_uri", e.URI)
		add("realm", e.Realm)
		if sc != "" {
			add("scope", sc+" z")
		}
		add("state", state)
		vfFidelity(w, err, "http://r1/cb", own, ps, frag, "P20.error")
		vfReach("error")
	}
}

// A target that is no absolute URI is refused with an error and nothing is
// written.
// bounds: 6 unusable targets and targets of 0-3 arbitrary bytes that are neither absolute path nor scheme; query and fragment
// reach: refused
func vfH_P20_refuse() {
	bad := []string{"", "foo", "r1/cb", "http://[::1", "http://r1/%zz", ":x"}
	k := vfChoice("bad", len(bad)+1)
	uri := ""
	if k < len(bad) {
		uri = bad[k]
	} else {
		uri = vfString("uri", 0, 3)
		vfAssume(!vfAbsoluteOrFragment(uri))
	}
	w := vfNewRec()
	err := WriteRedirect(w, uri, map[string]string{"state": "s"}, vfBool("frag"))
	vfAssert(err != nil, "P20.bad-target-refused")
	vfAssert(len(w.codes) == 0 && w.writes == 0 && len(w.h["Location"]) == 0, "P20.bad-target-nothing-written")
	vfReach("refused")
}

func vfAbsoluteOrFragment(s string) bool {
	b, _, _, _, _ := vfLocSplit(s)
	return vfAbsolute(b) || vfAbsolute(s)
}

// The target's own query survives even when some of its pairs are not
// well-formed form data (they are the client's business).
// bounds: 4 such queries, query and fragment, parameter value of 0-2 arbitrary bytes
// reach: fragment
func vfH_P20_ownquery() {
	type oq struct {
		q    string
		good []vfKV
		bad  string
	}
	l := []oq{{"x=1;y=2", nil, "x=1;y=2"}, {"x=%zz", nil, "x=%zz"}, {"a=1&b;c", []vfKV{{"a", "1"}}, "b;c"}, {"%&k=v", []vfKV{{"k", "v"}}, "%"}}
	t := l[vfChoice("q", len(l))]
	frag := vfBool("frag")
	v := vfString("v", 0, 2)
	w := vfNewRec()
	err := WriteRedirect(w, "http://r1/cb?"+t.q, map[string]string{"code": v}, frag)
	vfAssert(err == nil, "P20.odd-query-accepted")
	b, q, f, _, hasF := vfLocSplit(w.get("Location"))
	vfAssert(b == "http://r1/cb", "P20.odd-query-target")
	if frag {
		fp, ok := vfPairs(f)
		vfAssert(q == t.q, "P20.odd-query-fragment-kept")
		vfAssert(ok && len(fp) == 1 && vfPairsHave(fp, "code", v), "P20.odd-query-fragment")
		vfReach("fragment")
		return
	}
	vfAssert(!hasF, "P20.odd-query-no-fragment")
	bad := false
	var pairs []vfKV
	start := 0
	for i := 0; i <= len(q); i++ {
		if i < len(q) && q[i] != '&' {
			continue
		}
		seg := q[start:i]
		start = i + 1
		if seg == t.bad {
			bad = true
			continue
		}
		p, ok := vfPairs(seg)
		vfAssert(ok, "P20.odd-query-well-formed")
		pairs = append(pairs, p...)
	}
	vfAssert(vfPairsHave(pairs, "code", v), "P20.odd-query-parameter")
	for _, kv := range t.good {
		vfAssert(vfPairsHave(pairs, kv.k, kv.v), "P20.odd-query-good-pair")
	}
	vfAssert(bad, "P20.malformed-pair-of-own-query")
}

// Length does not matter: a long parameter, a long target and a long own
// query arrive in full.
// bounds: parameter value, target path or own query of 70, 300, 1100 or 4200 bytes, one of them (at the start, middle or end) arbitrary (unreserved in the path, one of 12 characters in the own query); or 60 parameters; query and fragment
// reach: value target own many
func vfH_P20_long() {
	base, q := "http://r1/cb", ""
	var own []vfKV
	ps := []vfKV{{"state", "st"}}
	switch vfChoice("what", 4) {
	case 0:
		ps = append(ps, vfKV{"v", vfLong("v", 4200)})
		vfReach("value")
	case 1:
		l := vfLong("p", 4200)
		for i := 0; i < len(l); i++ {
			c := l[i]
			vfAssume(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-' || c == '_')
		}
		base = "http://r1/" + l
		vfReach("target")
	case 2:
		l := vfLongIn("o", 4200, vfURIChars)
		own = []vfKV{{"own", l}}
		q = "?own=" + vfPct(l)
		vfReach("own")
	case 3:
		for i := 0; i < 60; i++ {
			ps = append(ps, vfKV{"k" + string(rune('A'+i%26)) + string(rune('a'+i/26)), vfPct(string(rune(33 + i)))})
		}
		vfReach("many")
	}
	m := map[string]string{}
	for _, kv := range ps {
		m[kv.k] = kv.v
	}
	frag := vfBool("frag")
	w := vfNewRec()
	err := WriteRedirect(w, base+q, m, frag)
	vfFidelity(w, err, base, own, ps, frag, "P20.long")
}
