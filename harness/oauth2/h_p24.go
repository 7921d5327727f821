package oauth2

import "encoding/json"

func vfBlank(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }

// vfItems splits on spaces, trims ASCII whitespace and drops what is empty.
func vfItems(s string) []string {
	var r []string
	start := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ' ' {
			continue
		}
		lo, hi := start, i
		for lo < hi && vfBlank(s[lo]) {
			lo++
		}
		for lo < hi && vfBlank(s[hi-1]) {
			hi--
		}
		if hi > lo {
			r = append(r, s[lo:hi])
		}
		start = i + 1
	}
	return r
}

func vfASCII(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ok = false
		}
	}
	return ok
}

// Parsing a scope yields its space-separated items in order, duplicates and
// all, trimmed of surrounding whitespace and without the empty ones; printing joins them by single spaces; parsing
// what was printed yields the same scope.
// bounds: strings of 0-5 (thorough: 0-7) ASCII bytes, or 3 items of 11 symbolic bytes
// reach: parsed empty
func vfH_P24_parse() {
	n := 5
	if vfThorough() {
		n = 7
	}
	s := ""
	if vfBool("long") {
		for i := 0; i < 3; i++ {
			it := vfString("it", 11, 11)
			for j := 0; j < len(it); j++ {
				vfAssume(it[j] > ' ' && it[j] < 0x7f)
			}
			s += " " + it
		}
	} else {
		s = vfString("s", 0, n)
		vfAssume(vfASCII(s))
	}
	want := vfItems(s)
	sc := ParseScope(s)
	vfAssert(len(sc) == len(want), "P24.count")
	joined := ""
	for i := range want {
		vfAssert(sc[i] == want[i], "P24.item")
		if i > 0 {
			joined += " "
		}
		joined += want[i]
	}
	vfAssert(sc.String() == joined, "P24.string")
	vfAssert(sc.Empty() == (len(want) == 0), "P24.empty")
	vfAssert(vfScopeEq(ParseScope(sc.String()), sc), "P24.fixpoint")
	if len(want) == 0 {
		vfReach("empty")
	} else {
		vfReach("parsed")
	}
}

// Whatever the bytes, a parsed scope holds no empty item and no item with a
// space, and parsing its printed form yields it again.
// bounds: strings of 0-3 (thorough: 0-4) arbitrary bytes
// reach: parsed
func vfH_P24_bytes() {
	n := 3
	if vfThorough() {
		n = 4
	}
	s := vfString("s", 0, n)
	sc := ParseScope(s)
	for _, it := range sc {
		vfAssert(it != "", "P24.no-empty-item")
		for i := 0; i < len(it); i++ {
			vfAssert(it[i] != ' ', "P24.no-space-in-item")
		}
	}
	vfAssert(vfScopeEq(ParseScope(sc.String()), sc), "P24.bytes-fixpoint")
	vfReach("parsed")
}

// Containment is membership and inclusion is the subset relation on items,
// byte for byte: order and repetition do not matter, the empty scope is
// included everywhere, inclusion is reflexive and transitive, and nothing is
// modified.
// bounds: three scopes of at most 3, 3 and 2 (thorough: 4, 3 and 2) items of 0-2 arbitrary bytes
// reach: included excluded transitive
func vfH_P24_algebra() {
	n := 3
	if vfThorough() {
		n = 4
	}
	mk := func(name string, n int) Scope {
		var s Scope
		for i := vfChoice(name+".n", n+1); i > 0; i-- {
			s = append(s, vfString(name, 0, 2))
		}
		return s
	}
	a, b, c := mk("a", n), mk("b", 3), Scope(nil)
	trans := vfBool("transitive")
	if trans {
		c = mk("c", 2)
	}
	ca, cb := append(Scope{}, a...), append(Scope{}, b...)
	inc := a.Includes(b)
	vfAssert(inc == vfIncludes(a, b), "P24.subset")
	if len(b) > 0 {
		one := false
		for _, it := range a {
			if it == b[0] {
				one = true
			}
		}
		vfAssert(a.Contains(b[0]) == one, "P24.member")
	}
	vfAssert(a.Includes(a) && a.Includes(nil) && a.Includes(Scope{}), "P24.reflexive")
	if trans && inc && b.Includes(c) {
		vfAssert(a.Includes(c), "P24.transitive")
		vfReach("transitive")
	}
	vfAssert(vfScopeEq(a, ca) && vfScopeEq(b, cb), "P24.unmodified")
	vfAssert(a.Empty() == (len(a) == 0), "P24.empty-iff")
	if inc {
		vfReach("included")
	} else {
		vfReach("excluded")
	}
}

// A scope is a JSON string of its printed form, and reading that string
// yields the parsed scope; other JSON values are refused and leave the scope
// as it was.
// bounds: scopes of 0-2 items of 1-3 symbolic printable bytes; JSON strings of 0-3 (thorough: 0-5) ASCII bytes; 5 other documents
// reach: marshal unmarshal refused
func vfH_P24_json() {
	switch vfChoice("what", 3) {
	case 0:
		sc := vfScopeN("s", 2, 3)
		buf, err := json.Marshal(sc)
		vfAssert(err == nil, "P24.marshal")
		var str string
		vfAssert(json.Unmarshal(buf, &str) == nil && str == sc.String(), "P24.marshal-string")
		var back Scope
		vfAssert(json.Unmarshal(buf, &back) == nil && vfScopeEq(back, sc), "P24.json-roundtrip")
		vfReach("marshal")
	case 1:
		n := 3
		if vfThorough() {
			n = 5
		}
		s := vfString("s", 0, n)
		vfAssume(vfASCII(s))
		buf, _ := json.Marshal(map[string]string{"scope": s})
		var v struct {
			Scope Scope `json:"scope"`
		}
		v.Scope = Scope{"old"}
		vfAssert(json.Unmarshal(buf, &v) == nil, "P24.unmarshal")
		want := vfItems(s)
		vfAssert(len(v.Scope) == len(want), "P24.unmarshal-count")
		for i := range want {
			vfAssert(v.Scope[i] == want[i], "P24.unmarshal-item")
		}
		vfReach("unmarshal")
	case 2:
		doc := []string{`1`, `["x"]`, `{"a":"x"}`, `true`, `"x`}[vfChoice("doc", 5)]
		sc := Scope{"old"}
		err := json.Unmarshal([]byte(doc), &sc)
		vfAssert(err != nil && vfScopeEq(sc, Scope{"old"}), "P24.other-json-refused")
		vfReach("refused")
	}
}

// The number and length of items do not matter.
// bounds: scopes of 17, 40 or 300 items, one of them (first, middle or last) with a symbolic byte, or one item of 70, 300, 1100 or 4200 bytes
// reach: many long
func vfH_P24_many() {
	var sc Scope
	if vfBool("long") {
		v := vfLong("v", 4200)
		for i := 0; i < len(v); i++ {
			vfAssume(v[i] > ' ' && v[i] < 0x7f)
		}
		sc = Scope{"x", v, "y"}
		vfReach("long")
	} else {
		sc = vfManyItems([]int{17, 40, 300}[vfChoice("n", 3)])
		vfReach("many")
	}
	s := vfJoin(sc)
	got := ParseScope(s)
	vfAssert(vfScopeEq(got, sc), "P24.many-parsed")
	vfAssert(got.String() == s, "P24.many-string")
	vfAssert(sc.Includes(got) && sc.Includes(sc[len(sc)/2:]) && !sc[1:].Includes(append(Scope{}, "no", sc[0])), "P24.many-includes")
	vfAssert(sc.Contains(sc[0]) && sc.Contains(sc[len(sc)/2]) && sc.Contains(sc[len(sc)-1]) && !sc.Contains("item"), "P24.many-contains")
	more := append(append(Scope{}, sc...), "other")
	vfAssert(more.Includes(sc) && !sc.Includes(more), "P24.many-strict")
	var back Scope
	j, err := json.Marshal(sc)
	vfAssert(err == nil, "P24.many-marshal")
	vfAssert(json.Unmarshal(j, &back) == nil && vfScopeEq(back, sc), "P24.many-json")
}

// Scopes are values: parsing the same string again is not affected by what
// happened to an earlier result, and none of the operations keeps or changes
// what it was given.
// bounds: strings of 0-3 (thorough: 0-4) ASCII bytes, parsed twice with the first result overwritten and extended in between
// reach: parsed
func vfH_P24_fresh() {
	n := 3
	if vfThorough() {
		n = 4
	}
	s := vfString("s", 0, n)
	vfAssume(vfASCII(s))
	a := ParseScope(s)
	b := ParseScope(s)
	want := append(Scope{}, a...)
	vfAssert(vfScopeEq(b, want), "P24.fresh-same")
	for i := range a {
		a[i] = "other"
	}
	a = append(a, "more")
	_ = a.String()
	_ = a.Includes(b)
	vfAssert(vfScopeEq(b, want), "P24.fresh-independent")
	c := ParseScope(s)
	vfAssert(vfScopeEq(c, want), "P24.fresh-again")
	j, err := json.Marshal(c)
	vfAssert(err == nil, "P24.fresh-marshal")
	var u, v Scope
	vfAssert(json.Unmarshal(j, &u) == nil && json.Unmarshal(j, &v) == nil, "P24.fresh-unmarshal")
	for i := range u {
		u[i] = "other"
	}
	vfAssert(vfScopeEq(v, want) && vfScopeEq(c, want), "P24.fresh-json")
	vfReach("parsed")
}
