package oauth2

// vfQuoted reports whether s may stand inside a quoted challenge parameter.
func vfQuoted(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e || s[i] == '"' || s[i] == '\\' {
			ok = false
		}
	}
	return ok
}

// vfChallenge parses `Bearer k="v", k="v"`.
func vfChallenge(s string) ([]vfKV, bool) {
	if len(s) < 7 || s[:7] != "Bearer " {
		return nil, false
	}
	s = s[7:]
	var r []vfKV
	for {
		eq := 0
		for eq < len(s) && s[eq] != '=' {
			eq++
		}
		if eq == 0 || eq+1 >= len(s) || s[eq+1] != '"' {
			return nil, false
		}
		end := eq + 2
		for end < len(s) && s[end] != '"' {
			end++
		}
		if end >= len(s) {
			return nil, false
		}
		r = append(r, vfKV{s[:eq], s[eq+2 : end]})
		s = s[end+1:]
		if s == "" {
			return r, true
		}
		if len(s) < 2 || s[0] != ',' || s[1] != ' ' {
			return nil, false
		}
		s = s[2:]
	}
}

// A bearer error is reported with its status and a WWW-Authenticate challenge
// that carries exactly its non-empty fields, each once, in alphabetical
// order; an error without fields carries a realm; the body is empty.
// bounds: one field at a time of 0-3 (thorough: 0-5) bytes that may stand in a quoted string, all fields together, or none at all; status 400-599 except 500 symbolic
// reach: fields bare
func vfH_P22_challenge() {
	n := 3
	if vfThorough() {
		n = 5
	}
	e, sc := vfErrFields(n, vfQuoted)
	if vfBool("anonymous") {
		e.Name = ""
	}
	e.Status = vfInt("status", 400, 599)
	vfAssume(e.Status != 500)
	w := vfNewRec()
	err := WriteBearerError(w, e)
	vfAssert(err == nil && len(w.codes) == 1, "P22.one-response")
	vfAssert(w.codes[0] == e.Status, "P22.status")
	vfAssert(len(w.body) == 0, "P22.no-body")
	vfAssert(len(w.snap) == 1 && len(w.snap["Www-Authenticate"]) == 1, "P22.only-challenge")
	got, ok := vfChallenge(w.get("Www-Authenticate"))
	vfAssert(ok, "P22.well-formed")
	var want []vfKV
	add := func(k, v string) {
		if v != "" {
			want = append(want, vfKV{k, v})
		}
	}
	s := ""
	for i, it := range sc {
		if i > 0 {
			s += " "
		}
		s += it
	}
	add("error", e.Name)
	add("error_description", e.Description)
	add("error_uri", e.URI)
	add("realm", e.Realm)
	add("scope", s)
	add("state", e.State)
	if len(want) == 0 {
		vfAssert(len(got) == 1 && got[0].k == "realm" && got[0].v != "", "P22.bare-realm")
		vfReach("bare")
		return
	}
	vfAssert(len(got) == len(want), "P22.exactly")
	for i := range want {
		vfAssert(got[i].k == want[i].k && got[i].v == want[i].v, "P22.field")
	}
	vfReach("fields")
}

// An internal error is answered with an empty 500 that reveals nothing.
// bounds: one field at a time of 0-3 arbitrary bytes, all together, or none
// reach: internal
func vfH_P22_internal() {
	e, _ := vfErrFields(3, func(string) bool { return true })
	e.Status = 500
	if vfBool("ctor") {
		e = ServerError(e.Description)
	}
	w := vfNewRec()
	err := WriteBearerError(w, e)
	vfAssert(err == nil && len(w.codes) == 1 && w.codes[0] == 500, "P22.internal-status")
	vfAssert(len(w.body) == 0 && len(w.snap) == 0, "P22.internal-empty")
	vfReach("internal")
}

// The resource guard challenges every refused request: 401 without error for
// a missing header, 400 for a malformed one, 401 invalid_token for a token
// that is unknown, malformed or expired, 403 insufficient_scope naming the
// required scope.
// bounds: 6 reasons; required scope of 1-2 items of 1-2 symbolic bytes
// reach: missing header malformed unknown expired scope
func vfH_P22_guard() {
	s, _, _, a1 := vfWorld()
	r := vfReq([]string{"GET", "POST", "DELETE"}[vfChoice("m", 3)], "/api")
	why := vfChoice("why", 6)
	required := Scope{}
	tok := a1.String()
	status, name := 401, "invalid_token"
	label := ""
	switch why {
	case 0:
		status, name, label = 401, "", "missing"
	case 1:
		status, name, label = 400, "invalid_request", "header"
		tok = ""
		r.Header["Authorization"] = []string{"Basic " + a1.String()}
	case 2:
		tok, label = a1.String()+"A", "malformed"
	case 3:
		tok, label = vfTok(200).String(), "unknown"
	case 4:
		s.AccessTokens[a1.SignatureString()].ExpiresAt = vfNow().Add(-1)
		label = "expired"
	case 5:
		required = Scope{"x", vfItem1("need", 2)}
		vfAssume(!vfIncludes(s.AccessTokens[a1.SignatureString()].Scope, required))
		status, name, label = 403, "insufficient_scope", "scope"
	}
	if why >= 2 {
		r.Header["Authorization"] = []string{"Bearer " + tok}
	}
	w := vfNewRec()
	ok := s.Authorize(w, r, required)
	vfAssert(!ok, "P22.guard-refused")
	vfAssert(len(w.codes) == 1 && w.codes[0] == status, "P22.guard-status")
	vfAssert(len(w.body) == 0, "P22.guard-no-body")
	got, wf := vfChallenge(w.get("Www-Authenticate"))
	vfAssert(wf, "P22.guard-challenge")
	vfAssert(vfPairVal(got, "error") == name, "P22.guard-error")
	if why == 5 {
		vfAssert(vfPairsHave(got, "scope", "x "+required[1]), "P22.guard-scope")
	} else {
		vfAssert(vfPairVal(got, "scope") == "", "P22.guard-no-scope")
	}
	vfReach(label)
}

// Long fields stand in the challenge in full.
// bounds: one of 5 fields of 70, 300, 1100 or 4200 bytes that may stand in a quoted string, one of them (at the start, middle or end) symbolic
// reach: written
func vfH_P22_long() {
	e := &Error{Status: 403, Name: "insufficient_scope"}
	v := vfLong("v", 4200)
	vfAssume(vfQuoted(v))
	k := ""
	switch vfChoice("field", 5) {
	case 0:
		k, e.Name = "error", v
	case 1:
		k, e.Description = "error_description", v
	case 2:
		k, e.URI = "error_uri", v
	case 3:
		k, e.Realm = "realm", v
	case 4:
		k, e.Scope = "scope", Scope{v}
	}
	w := vfNewRec()
	err := WriteBearerError(w, e)
	vfAssert(err == nil && len(w.codes) == 1 && w.codes[0] == 403, "P22.long-status")
	got, ok := vfChallenge(w.get("Www-Authenticate"))
	vfAssert(ok, "P22.long-well-formed")
	vfAssert(vfPairsHave(got, k, v), "P22.long-field")
	n := 2
	if k == "error" {
		n = 1
	}
	vfAssert(len(got) == n, "P22.long-exactly")
	vfReach("written")
}
