package oauth2

// A bearer token is taken from the Authorization header exactly when the
// header is the scheme "Bearer" in any letter case, one space and a non-empty
// rest; the rest is the token byte for byte. An absent or empty header asks
// for authentication, any other one is an invalid request.
// bounds: header of 0-9 (thorough: 0-12) arbitrary bytes; "bearer" with one arbitrary byte replaced and 0-3 arbitrary bytes after it; "Bearer " in 4 cases with 0-6 arbitrary bytes, or 33, 80 or 260 bytes
// reach: token malformed absent
func vfH_P23_bearer() {
	n := 9
	if vfThorough() {
		n = 12
	}
	r := vfReq("GET", "/api")
	h := ""
	set := true
	switch vfChoice("kind", 4) {
	case 0:
		set = false
	case 1:
		h = vfString("h", 0, n)
	case 2:
		p := []byte("bearer ")
		i := vfChoice("pos", 7)
		p[i] = vfByte("c")
		h = string(p) + vfString("rest", 0, 3)
	case 3:
		h = []string{"Bearer ", "bearer ", "BEARER ", "bEaReR "}[vfChoice("case", 4)] + vfSized("rest", 6)
	}
	if set {
		r.Header["Authorization"] = []string{h}
	}
	if vfBool("elsewhere") {
		// tokens anywhere else are not looked at
		r.Method = "POST"
		vfSet(r, "access_token", "other")
		r.URL.RawQuery = "access_token=other"
	}
	want, ok := "", false
	if len(h) >= 8 {
		ok = true
		for i := 0; i < 6; i++ {
			if h[i]|0x20 != "bearer"[i] {
				ok = false
			}
		}
		if h[6] != ' ' {
			ok = false
		}
		want = h[7:]
	}
	got, err := ParseBearerToken(r)
	if ok {
		vfAssert(err == nil, "P23.accepted")
		vfAssert(got == want, "P23.token")
		vfReach("token")
		return
	}
	vfAssert(got == "", "P23.refused-empty")
	name, status := vfErrName(err)
	if h == "" {
		vfAssert(status == 401 && name == "", "P23.absent")
		vfReach("absent")
		return
	}
	vfAssert(status == 400 && name == "invalid_request", "P23.malformed")
	vfReach("malformed")
}

// Only the first Authorization header counts.
// bounds: two headers, the first of 0-8 arbitrary bytes or a valid one
// reach: first
func vfH_P23_multiple() {
	r := vfReq("GET", "/api")
	first := "Bearer one"
	if vfBool("odd") {
		first = vfString("h", 0, 8)
	}
	r.Header["Authorization"] = []string{first, "Bearer two"}
	got, err := ParseBearerToken(r)
	vfAssert(got != "two", "P23.second-ignored")
	r1 := vfReq("GET", "/api")
	r1.Header["Authorization"] = []string{first}
	got1, err1 := ParseBearerToken(r1)
	vfAssert(got == got1 && (err == nil) == (err1 == nil), "P23.same-as-first")
	vfReach("first")
}

// However long the token, all of it is taken.
// bounds: tokens of 70, 300, 1100 or 4200 bytes, one of them (at the start, middle or end) arbitrary
// reach: token
func vfH_P23_long() {
	v := vfLong("v", 4200)
	r := vfReq("GET", "/api")
	r.Header["Authorization"] = []string{"Bearer " + v}
	got, err := ParseBearerToken(r)
	vfAssert(err == nil && got == v, "P23.long-token")
	vfReach("token")
}
