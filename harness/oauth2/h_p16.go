package oauth2

import (
	"io"
	"net/http"
	"time"
)

func vfTokenIn(w *vfRec) bool {
	_, ok := vfJSONStr(w.body, "access_token")
	return ok
}

// vfP16World is a world with the given nuisance, chosen by the caller.
type vfP16World struct {
	s          *Server
	k1, r1, a1 *HS256Token
	at2, rt2   string // tokens that descend from an already redeemed code k2
	k2         *HS256Token
	sn         *vfSnapT
}

// vfP16Var is what varies between runs of the same pair.
type vfP16Var struct {
	world            int // 0 plain, 1 siblings of a spent code, 2 other client of the same user
	kSec, rSec, aSec int // how many seconds the credentials are still good for
	secret           string
	scope            string
	vary             int
}

func (v *vfP16Var) build() *vfP16World {
	s := NewServer(DefaultServerConfig(vfSecret(), Scope{"x", "y"}))
	now := time.Now()
	s.Clients["c1"] = &ServerEntity{Secret: "s1", Confidential: true, RedirectURI: "http://r1/cb"}
	s.Clients["c2"] = &ServerEntity{Secret: "s2", Confidential: true, RedirectURI: "http://r2/cb"}
	s.Users["u1"] = &ServerEntity{Secret: "p1"}
	in := func(sec int) time.Time { return time.Unix(now.Unix()+int64(sec), int64(now.Nanosecond())) }
	w := &vfP16World{s: s, k1: vfTok(1), r1: vfTok(2), a1: vfTok(3), k2: vfTok(4)}
	code := w.k2.SignatureString()
	vfCred(s.AuthorizationCodes, w.k1, ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, RedirectURI: "http://r1/cb", ExpiresAt: in(v.kSec)})
	vfCred(s.AuthorizationCodes, w.k2, ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x", "y"}, RedirectURI: "http://r1/cb", ExpiresAt: in(60), Used: true})
	vfCred(s.RefreshTokens, w.r1, ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x", "y"}, ExpiresAt: in(v.rSec), Code: code})
	vfCred(s.AccessTokens, w.a1, ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x", "y"}, ExpiresAt: in(v.aSec), Code: code})
	switch v.world {
	case 1:
		s.RefreshTokens[w.r1.SignatureString()].Code = ""
		s.AccessTokens[w.a1.SignatureString()].Code = ""
		vfCred(s.RefreshTokens, vfTok(22), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, Code: code, ExpiresAt: in(60)})
		vfCred(s.AccessTokens, vfTok(23), ServerCredential{ClientID: "c1", Username: "u1", Scope: Scope{"x"}, Code: code, ExpiresAt: in(-60)})
	case 2:
		vfCred(s.RefreshTokens, vfTok(12), ServerCredential{ClientID: "c2", Username: "u1", Scope: Scope{"x"}, ExpiresAt: in(60)})
		vfCred(s.AccessTokens, vfTok(13), ServerCredential{ClientID: "c2", Username: "u1", Scope: Scope{"x"}, ExpiresAt: in(60)})
	}
	w.sn = vfSnapshot(s)
	return w
}

const vfP16Ops = 13

// thread is one concurrent operation on the world: 0-5, 6 implicit grant, 7
// code grant, 8 authorization page, 9 revoke the refresh token, 10 use the
// access token, 11 replay the spent code, 12 introspect the refresh token.
func (w *vfP16World) thread(op int, v *vfP16Var) (*vfRec, func()) {
	rec := vfNewRec()
	var r *http.Request
	switch op {
	case 9:
		r = vfReq("POST", "/revoke")
		r.SetBasicAuth("c1", "s1")
		vfSet(r, "token", w.r1.String())
	case 10:
		q := vfReq("GET", "/api")
		q.Header["Authorization"] = []string{"Bearer " + w.a1.String()}
		required := Scope{"x"}
		if v.vary == 2 {
			required = Scope{v.scope}
		}
		return rec, func() {
			if w.s.Authorize(rec, q, required) {
				rec.h["Granted"] = []string{"yes"}
			}
		}
	case 11:
		r = vfGrantReq(2, w.k2, nil, nil)
		r.SetBasicAuth("c1", "s1")
	case 12:
		r = vfReq("POST", "/introspect")
		r.SetBasicAuth("c1", "s1")
		vfSet(r, "token", w.r1.String())
	default:
		r = vfAnyReq(op, w.k1, w.r1, w.a1)
	}
	switch v.vary {
	case 1: // the credentials presented
		if op >= 6 && op <= 8 {
			vfSet(r, "password", v.secret)
		} else {
			r.SetBasicAuth("c1", v.secret)
		}
	case 2:
		vfSet(r, "scope", v.scope)
	}
	return rec, func() { w.s.ServeHTTP(rec, r) }
}

func vfGranted(r *vfRec) bool { return len(r.h["Granted"]) > 0 }

// vfSameAnswer compares two answers up to the values of fresh credentials.
func vfSameAnswer(a, b *vfRec) bool {
	if len(a.codes) != len(b.codes) || a.status() != b.status() || vfGranted(a) != vfGranted(b) ||
		a.get("Www-Authenticate") != b.get("Www-Authenticate") || (len(a.body) == 0) != (len(b.body) == 0) ||
		len(a.get("Location")) != len(b.get("Location")) {
		return false
	}
	if len(a.body) == 0 {
		return true
	}
	if vfJSONKeys(a.body) != vfJSONKeys(b.body) {
		return false
	}
	for _, k := range []string{"error", "error_description", "scope", "token_type", "username", "client_id"} {
		x, _ := vfJSONStr(a.body, k)
		y, _ := vfJSONStr(b.body, k)
		if x != y {
			return false
		}
	}
	x, _ := vfJSONBool(a.body, "active")
	y, _ := vfJSONBool(b.body, "active")
	n, _ := vfJSONInt(a.body, "exp")
	m, _ := vfJSONInt(b.body, "exp")
	return x == y && n == m
}

// vfSameStore compares two stores up to the names of fresh credentials.
func vfSameStore(sn []vfEnt, a, b map[string]*ServerCredential) bool {
	if len(a) != len(b) {
		return false
	}
	for _, e := range sn {
		x, y := a[e.key], b[e.key]
		if (x == nil) != (y == nil) || x != nil && !vfCredEq(x, y) {
			return false
		}
	}
	fa, fb := vfAdded(sn, a), vfAdded(sn, b)
	if len(fa) != len(fb) {
		return false
	}
	for _, k := range fa {
		n, m := 0, 0
		for _, l := range fa {
			if vfCredEq(a[l], a[k]) {
				n++
			}
		}
		for _, l := range fb {
			if vfCredEq(b[l], a[k]) {
				m++
			}
		}
		if n != m {
			return false
		}
	}
	return true
}

func vfSameWorld(a, b *vfP16World) bool {
	return vfSameStore(a.sn.at, a.s.AccessTokens, b.s.AccessTokens) && vfSameStore(a.sn.rt, a.s.RefreshTokens, b.s.RefreshTokens) &&
		vfSameStore(a.sn.ac, a.s.AuthorizationCodes, b.s.AuthorizationCodes)
}

// vfP16Check runs the operations concurrently on one world and in every order
// on others: the outcome must be that of one of the orders.
func vfP16Check(ops []int, v *vfP16Var) ([]*vfRec, *vfP16World) {
	n := len(ops)
	c := v.build()
	recs := make([]*vfRec, n)
	ths := make([]func(), n)
	for i, op := range ops {
		recs[i], ths[i] = c.thread(op, v)
	}
	vfConcurrent(ths...)
	vfAssert(vfUnlocked(c.s), "P16.lock-released")
	for i, r := range recs {
		vfAssert(len(r.codes) == 1 || ops[i] == 10 && vfGranted(r) && len(r.codes) == 0, "P16.one-response")
	}
	orders := [][]int{{0, 1}, {1, 0}}
	if n == 3 {
		orders = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	some := false
	for _, o := range orders {
		q := v.build()
		qr := make([]*vfRec, n)
		for _, i := range o {
			var f func()
			qr[i], f = q.thread(ops[i], v)
			f()
		}
		same := vfSameWorld(c, q)
		for i := range recs {
			if !vfSameAnswer(recs[i], qr[i]) {
				same = false
			}
		}
		if same {
			some = true
		}
	}
	vfAssert(some, "P16.some-order")
	vfAssert(vfEntitiesSame(c.sn, c.s) && vfConfigSame(c.sn, c.s), "P16.parties-kept")
	return recs, c
}

// Two concurrent requests have the answers and the effect of one of the two
// orders, without unsynchronised access to any memory and without deadlock,
// and the server stays usable.
// bounds: every pair of 13 operations (password, client credentials, code, refresh, introspect and revoke access or refresh token, implicit, code grant, page, use, replay of a spent code) on the same server and the same credentials; plain in 3 worlds, or lifetimes of -2..2 s symbolic, or the presented secret of 2 (thorough: 2-4) or scope of 0-1 (thorough: 0-3) arbitrary bytes; every schedule with at most 2 (thorough: 3) pre-emptions at synchronisation operations; happens-before of all memory accesses
// reach: pair double-redeem double-refresh double-revoke guard refused
// race: yes
func vfH_P16_pairs() {
	opA := vfChoice("a", vfP16Ops)
	opB := opA + vfChoice("b", vfP16Ops-opA)
	time.Sleep(123456789)
	v := &vfP16Var{kSec: 60, rSec: 60, aSec: 60, vary: vfChoice("vary", 4)}
	n := 1
	if vfThorough() {
		n = 3
	}
	switch v.vary {
	case 0:
		v.world = vfChoice("world", 3)
	case 1:
		v.secret = vfString("secret", 2, 1+n)
	case 2:
		v.scope = vfString("scope", 0, n)
	case 3:
		v.kSec, v.rSec, v.aSec = vfInt("ksec", -2, 2), vfInt("rsec", -2, 2), vfInt("asec", -2, 2)
	}
	recs, c := vfP16Check([]int{opA, opB}, v)
	wa, wb := recs[0], recs[1]
	at, rt, ac := len(c.s.AccessTokens)-len(c.sn.at), len(c.s.RefreshTokens)-len(c.sn.rt), len(c.s.AuthorizationCodes)-len(c.sn.ac)
	if wa.status() >= 400 || wb.status() >= 400 {
		vfReach("refused")
	}
	switch {
	case opA == 2 && opB == 2:
		vfAssert(!(wa.status() == 200 && wb.status() == 200), "P16.code-pays-once")
		vfAssert(!(vfTokenIn(wa) && vfTokenIn(wb)), "P16.code-pays-once")
		if v.vary == 0 {
			vfAssert((wa.status() == 200) != (wb.status() == 200), "P16.code-pays-once")
			// the second one was a replay: nothing of the code survives
			vfAssert(at == 0 && rt == 0, "P16.replay-revokes")
			vfReach("double-redeem")
		}
	case opA == 3 && opB == 3:
		vfAssert(!(wa.status() == 200 && wb.status() == 200), "P16.refresh-pays-once")
		if v.vary == 0 {
			vfAssert((wa.status() == 200) != (wb.status() == 200), "P16.refresh-pays-once")
			vfAssert(at == 1 && rt == 0, "P16.refresh-pays-once")
			vfReach("double-refresh")
		}
	case opA == 3 && opB == 9:
		// either the refresh came first and its new pair lives, or it was refused
		if v.vary == 0 {
			if wa.status() == 200 {
				vfAssert(rt == 0, "P16.refresh-then-revoke")
			} else {
				vfAssert(rt == -1 && at == 0, "P16.revoke-then-refresh")
			}
			_, still := c.s.RefreshTokens[c.r1.SignatureString()]
			vfAssert(!still, "P16.revoked")
		}
	case opA == 5 && opB == 5:
		if v.vary == 0 {
			vfAssert(wa.status() == 200 && wb.status() == 200 && at == -1, "P16.double-revoke")
			vfReach("double-revoke")
		}
	case opB == 10:
		vfReach("guard")
	case opB == 11:
		// nothing of the spent code survives a replay, whatever runs with it
		if v.vary == 0 && (opA == 3 || opA == 5 || opA == 9) && v.world != 1 {
			dead := 0
			for _, m := range []map[string]*ServerCredential{c.s.AccessTokens, c.s.RefreshTokens} {
				for _, k := range m {
					if k.Code == c.k2.SignatureString() {
						dead++
					}
				}
			}
			vfAssert(dead == 0, "P16.no-descendant-survives")
		}
	case v.vary == 0 && opA < 9 && opB < 9:
		// independent operations all succeed and their effects add up
		add := func(op int) (at, rt, ac int) {
			switch op {
			case 0, 1, 2:
				return 1, 1, 0
			case 3:
				return 1, 0, 0
			case 5:
				return -1, 0, 0
			case 6:
				return 1, 0, 0
			case 7:
				return 0, 0, 1
			}
			return 0, 0, 0
		}
		a1, b1, c1 := add(opA)
		a2, b2, c2 := add(opB)
		vfAssert(wa.status() < 400 && wb.status() < 400, "P16.both-served")
		vfAssert(at == a1+a2 && rt == b1+b2 && ac == c1+c2, "P16.effects-add-up")
	}
	// still usable
	v.vary = 0
	w, f := c.thread(1, v)
	f()
	vfAssert(w.status() == 200, "P16.usable-afterwards")
	vfReach("pair")
}

// The same for three requests at once that all touch the same authorization.
// bounds: any three of redeem, refresh, revoke refresh token, revoke access token, replay, use, introspect (in that order of numbers, repetition allowed); 2 (thorough: 3) pre-emptions; happens-before as above
// reach: triple
// race: yes
func vfH_P16_triples() {
	l := []int{2, 3, 9, 5, 11, 10, 4}
	a := vfChoice("a", len(l))
	b := a + vfChoice("b", len(l)-a)
	d := b + vfChoice("c", len(l)-b)
	v := &vfP16Var{kSec: 60, rSec: 60, aSec: 60, world: vfChoice("world", 2)}
	recs, _ := vfP16Check([]int{l[a], l[b], l[d]}, v)
	paid := 0
	for i, op := range []int{l[a], l[b], l[d]} {
		if op == 2 && recs[i].status() == 200 {
			paid++
		}
	}
	vfAssert(paid <= 1, "P16.code-pays-once")
	vfReach("triple")
}

// A server operation that fails for lack of randomness among others leaves
// the lock free and the others undisturbed, and a request whose body cannot
// be read as well.
// bounds: 7 operations, one of them with a body failing at once, a malformed one, or a missing path; paired with any of 13 operations
// reach: failing
// race: yes
func vfH_P16_failing() {
	v := &vfP16Var{kSec: 60, rSec: 60, aSec: 60}
	c := v.build()
	opB := vfChoice("b", vfP16Ops)
	wb, b := c.thread(opB, v)
	var r *http.Request
	switch vfChoice("bad", 4) {
	case 0:
		r = vfReq("POST", []string{"/token", "/revoke", "/introspect", "/authorize"}[vfChoice("path", 4)])
		r.Form, r.PostForm = nil, nil
		r.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		r.Body = &vfBody{err: io.ErrUnexpectedEOF}
	case 1:
		r = vfReq("POST", "/token")
		r.SetBasicAuth("c1", "s1")
	case 2:
		r = vfReq("GET", "/nothing")
	case 3:
		r = vfReq("PUT", "/revoke")
	}
	wa := vfNewRec()
	vfConcurrent(func() { c.s.ServeHTTP(wa, r) }, b)
	vfAssert(vfUnlocked(c.s), "P16.lock-released")
	vfAssert(wa.status() >= 400, "P16.failing-refused")
	vfAssert(wb.status() < 400 || opB == 11, "P16.other-undisturbed")
	vfReach("failing")
}

// The package's functions share no mutable state: run concurrently, without
// any server, each behaves as if it ran alone.
// bounds: 6 functions in ordered pairs; 2 (thorough: 3) pre-emptions; happens-before order of all memory accesses
// reach: pair
// race: yes
func vfH_P16_functions() {
	var tk [2]*HS256Token
	var body [2][]byte
	var hdr [2]string
	run := func(i, op int) func() {
		return func() {
			switch op {
			case 0:
				tk[i] = MustGenerateHS256Token(vfSecret(), 16)
			case 1:
				t, err := ParseHS256Token(vfSecret(), vfTok(byte(3+i)).String())
				if err == nil {
					tk[i] = t
				}
			case 2:
				w := vfNewRec()
				_ = WriteTokenResponse(w, NewBearerTokenResponse([]string{"ta", "tb"}[i], 7+i))
				body[i] = w.body
			case 3:
				w := vfNewRec()
				_ = WriteBearerError(w, InsufficientScope(Scope{[]string{"a", "b"}[i]}))
				hdr[i] = w.get("Www-Authenticate")
			case 4:
				w := vfNewRec()
				_ = WriteError(w, InvalidGrant([]string{"ea", "eb"}[i]).SetRedirect("http://r/", "st", i == 0))
				hdr[i] = w.get("Location")
			case 5:
				hdr[i] = TokenRequestValues(TokenRequest{GrantType: "password", Username: []string{"ua", "ub"}[i]}).Encode()
			}
		}
	}
	opA, opB := vfChoice("a", 6), vfChoice("b", 6)
	vfConcurrent(run(0, opA), run(1, opB))
	for i := 0; i < 2; i++ {
		op := opA
		if i == 1 {
			op = opB
		}
		switch op {
		case 0:
			vfAssert(tk[i] != nil && tk[i].Valid(vfSecret()), "P16.generate")
		case 1:
			vfAssert(tk[i] != nil && string(tk[i].Key) == string(vfTok(byte(3+i)).Key), "P16.parse")
		case 2:
			v, _ := vfJSONStr(body[i], "access_token")
			vfAssert(v == []string{"ta", "tb"}[i], "P16.write")
		case 3:
			vfAssert(hdr[i] == []string{`Bearer error="insufficient_scope", scope="a"`, `Bearer error="insufficient_scope", scope="b"`}[i], "P16.bearer")
		case 4:
			vfAssert(hdr[i] == []string{"http://r/#error=invalid_grant&error_description=ea&state=st", "http://r/?error=invalid_grant&error_description=eb&state=st"}[i], "P16.redirect")
		case 5:
			vfAssert(hdr[i] == []string{"grant_type=password&username=ua", "grant_type=password&username=ub"}[i], "P16.values")
		}
	}
	if opA == 0 && opB == 0 {
		vfAssert(string(tk[0].Key) != string(tk[1].Key), "P16.distinct-keys")
	}
	vfReach("pair")
}
