package oauth2

const vfURIChars = "ab/.?=&:@-~;"

// The user agent is redirected only to the redirect URI registered by the
// named client, compared exactly and in full; in every other case the answer
// is an error shown at the authorization server itself.
// bounds: client id symbolic of 0-2 bytes or valid; registered and presented redirect URI with a common prefix, or none, and 0-2 (thorough: 0-4) symbolic characters out of 12 each, or absent; confidential and public client; GET and POST; both response types and unknown ones; right and wrong owner credentials
// reach: redirected mismatch unknown-client
func vfH_P12_redirect() {
	n := 2
	if vfThorough() {
		n = 4
	}
	s, _, _, _ := vfWorld()
	n = vfIn(n, 1)
	op := 1 + vfChoice("op", 2)
	r := vfOwnerReq(op)
	reg := "http://r1/cb"
	redir := reg
	client := "c1"
	okType := true
	switch vfChoice("vary", 5) {
	case 0:
		reg = "http://r1/" + vfStringIn("reg", 0, n, vfURIChars)
		redir = "http://r1/" + vfStringIn("pres", 0, n, vfURIChars)
	case 1:
		redir = "http://r" + vfStringIn("host", 0, n, vfURIChars)
	case 2:
		client = vfString("client", 0, 2)
	case 3:
		redir = vfStringIn("free", 0, n+vfIn(2, 1), vfURIChars)
		reg = []string{"", "/", "/a", "http://r1/cb"}[vfChoice("freereg", 4)]
	case 4:
		rt := vfString("rt", 0, 5)
		vfSet(r, "response_type", rt)
		okType = rt == "token" || rt == "code"
	}
	s.Clients["c1"].RedirectURI = reg
	if vfBool("public") {
		s.Clients["c1"].Confidential = false
		s.Clients["c1"].Secret = ""
	}
	vfSet(r, "redirect_uri", redir)
	vfSet(r, "client_id", client)
	vfSet(r, "username", "u1")
	pass := "p1"
	if vfBool("bad") {
		pass = "p9"
	}
	vfSet(r, "password", pass)
	vfSet(r, "state", "st")
	if vfBool("get") {
		r.Method = "GET"
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P12.one-response")
	want := ""
	known := client == "c1" || client == "c2"
	if client == "c1" {
		want = reg
	} else if client == "c2" {
		want = s.Clients["c2"].RedirectURI
	}
	legit := known && okType && redir != "" && redir == want && r.Method == "POST"
	loc := w.has("Location")
	if !legit {
		vfAssert(!loc, "P12.not-redirected")
		vfAssert(vfSame(sn, s), "P12.no-effect")
		vfAssert(w.status() < 300 || w.status() >= 400, "P12.not-a-redirect-status")
		if !known {
			vfAssert(w.status() >= 400 && w.status() < 500, "P12.unknown-client-refused")
			vfReach("unknown-client")
		} else if redir != want {
			vfAssert(w.status() == 400, "P12.mismatch-refused")
			vfReach("mismatch")
		}
		return
	}
	if !loc {
		return // the registered URI itself may be unusable
	}
	got := w.get("Location")
	base, _, _, _, _ := vfLocSplit(got)
	wbase, _, _, _, _ := vfLocSplit(redir)
	vfAssert(base == wbase, "P12.redirect-target")
	vfReach("redirected")
}

// A registered redirect URI that needs percent-encoding is compared after
// decoding exactly once; nothing that merely looks alike is accepted.
// bounds: registered URI http://r1/ plus 0-2 symbolic characters; presented URI http://r1/ plus 0-2 (thorough: 0-3) arbitrary bytes, percent-decoded by an independent decoder
// reach: match mismatch undecodable
func vfH_P12_encoded() {
	n := 2
	if vfThorough() {
		n = 3
	}
	s, _, _, _ := vfWorld()
	r := vfOwnerReq(1 + vfChoice("op", 2))
	reg := "http://r1/" + vfStringIn("reg", 0, 2, "aA/?")
	s.Clients["c1"].RedirectURI = reg
	raw := "http://r1/" + vfString("pres", 0, n)
	vfSet(r, "redirect_uri", raw)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	w := vfServe(s, r)
	dec, ok := vfUnq(raw)
	if !ok || dec != reg {
		vfAssert(!w.has("Location"), "P12.encoded-not-redirected")
		if !ok {
			vfReach("undecodable")
		} else {
			vfReach("mismatch")
		}
		return
	}
	vfAssert(w.status() == 303, "P12.encoded-redirected")
	vfReach("match")
}

// The token, introspection and revocation endpoints and the resource guard
// never redirect.
// bounds: 6 operations with right or wrong secret and a foreign redirect_uri
// reach: checked
func vfH_P12_backchannel() {
	s, k1, r1, a1 := vfWorld()
	r := vfGrantReq(vfChoice("op", 6), k1, r1, a1)
	r.SetBasicAuth("c1", "s"+vfString("sec", 0, 1))
	if vfBool("redir") {
		vfSet(r, "redirect_uri", "http://evil/cb")
	}
	vfSet(r, "state", "st")
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1 && !w.has("Location"), "P12.backchannel-no-redirect")
	vfAssert(w.status() < 300 || w.status() >= 400, "P12.backchannel-status")
	vfReach("checked")
}

// Long redirect URIs are compared in full: one differing byte anywhere, a
// missing one or an extra one is refused.
// bounds: registered URI of about 70, 300, 1100 or 4200 bytes; the presented one has one symbolic character out of 12 at the start, middle or end of its path, or lacks its last byte, or has one more; both flows
// reach: same other shorter longer
func vfH_P12_long() {
	s, _, _, _ := vfWorld()
	vfAssume(vfNuis == 0)
	r := vfOwnerReq(1 + vfChoice("op", 2))
	raw := vfLongIn("pres", 4200, vfURIChars)
	n := len(raw)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-_"[i%38]
	}
	reg := "http://r1/" + string(b)
	s.Clients["c1"].RedirectURI = reg
	pres := "http://r1/" + raw
	same := pres == reg
	switch vfChoice("how", 3) {
	case 1:
		pres, same = reg[:len(reg)-1], false
		vfReach("shorter")
	case 2:
		pres, same = reg+"a", false
		vfReach("longer")
	}
	vfSet(r, "redirect_uri", vfPct(pres))
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P12.long-one-response")
	if !same {
		vfAssert(w.status() == 400 && !w.has("Location"), "P12.long-refused")
		vfReach("other")
		return
	}
	base, _, _, _, _ := vfLocSplit(w.get("Location"))
	vfAssert(w.status() == 303 && base == reg, "P12.long-target")
	vfReach("same")
}
