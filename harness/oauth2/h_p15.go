package oauth2

import (
	"net/http"
	"time"
)

// vfAnyReq is a valid request for one of nine operations: 0-5 as vfGrantReq,
// 6 implicit, 7 code, 8 authorization page.
func vfAnyReq(op int, k1, r1, a1 *HS256Token) *http.Request {
	if op < 6 {
		r := vfGrantReq(op, k1, r1, a1)
		r.SetBasicAuth("c1", "s1")
		return r
	}
	o := op - 5
	if op == 8 {
		o = 1
	}
	r := vfOwnerReq(o)
	vfSet(r, "username", "u1")
	vfSet(r, "password", "p1")
	if op == 8 {
		r.Method = "GET"
	}
	return r
}

// vfDelta checks that the stores differ from the snapshot by exactly the
// effect of the successful operation.
func vfDelta(s *Server, sn *vfSnapT, op int, k1, r1, a1 *HS256Token, p string) {
	na, nr, nk := len(vfAdded(sn.at, s.AccessTokens)), len(vfAdded(sn.rt, s.RefreshTokens)), len(vfAdded(sn.ac, s.AuthorizationCodes))
	var xa, xr, xk []string
	wa, wr, wk := 0, 0, 0
	switch op {
	case 0, 1:
		wa, wr = 1, 1
	case 2:
		wa, wr = 1, 1
		xk = []string{k1.SignatureString()}
		c := s.AuthorizationCodes[k1.SignatureString()]
		if c != nil {
			vfAssert(c.Used, p+".code-spent")
		}
	case 3:
		wa, wr = 1, 1
		xr = []string{r1.SignatureString()}
		vfAssert(s.RefreshTokens[r1.SignatureString()] == nil, p+".refresh-token-spent")
	case 5:
		xa = []string{a1.SignatureString()}
		vfAssert(s.AccessTokens[a1.SignatureString()] == nil, p+".revoked")
	case 6:
		wa = 1
	case 7:
		wk = 1
	}
	vfAssert(na == wa && nr == wr && nk == wk, p+".issues-exactly")
	vfAssert(vfKeeps(sn.at, s.AccessTokens, xa...), p+".access-tokens-kept")
	vfAssert(vfKeeps(sn.rt, s.RefreshTokens, xr...), p+".refresh-tokens-kept")
	vfAssert(vfKeeps(sn.ac, s.AuthorizationCodes, xk...), p+".codes-kept")
}

// A request that is refused changes nothing, and a request that is served
// changes exactly what its operation defines; clients, users and
// configuration never change.
// bounds: 9 operations; one of 17 request attributes replaced by 0-3 (thorough: 0-5) arbitrary bytes or removed, or the presented credentials expired, or the code spent, or their scope lists shared or repeating, or nothing varied; world of 2 clients, 2 users and 6 credentials
// reach: served refused
func vfH_P15_frame() {
	n := 3
	if vfThorough() {
		n = 5
	}
	s, k1, r1, a1 := vfWorld()
	n = vfIn(n, 1)
	op := vfChoice("op", 9)
	r := vfAnyReq(op, k1, r1, a1)
	fields := []string{"grant_type", "response_type", "client_id", "username", "password", "scope", "state", "code", "refresh_token", "redirect_uri", "token", "token_type_hint"}
	f := vfChoice("field", len(fields)+10)
	switch {
	case f == len(fields)+6: // everything presented has expired
		past := time.Now().Add(-time.Second)
		s.AuthorizationCodes[k1.SignatureString()].ExpiresAt = past
		s.RefreshTokens[r1.SignatureString()].ExpiresAt = past
		s.AccessTokens[a1.SignatureString()].ExpiresAt = past
	case f == len(fields)+7: // a spent code without descendants
		s.AuthorizationCodes[k1.SignatureString()].Used = true
	case f == len(fields)+8: // one scope list, with repeated items, shared by all of them
		shared := Scope{"y", "x", "y"}
		s.AuthorizationCodes[k1.SignatureString()].Scope = shared
		s.RefreshTokens[r1.SignatureString()].Scope = shared
		s.AccessTokens[a1.SignatureString()].Scope = shared
		if vfBool("drop") {
			delete(r.PostForm, "scope")
			delete(r.Form, "scope")
		}
	case f == len(fields)+9: // lists with spare capacity
		spare := Scope{"x", "x", "y"}
		s.AuthorizationCodes[k1.SignatureString()].Scope = spare[:1]
		s.RefreshTokens[r1.SignatureString()].Scope = spare[:2]
		s.AccessTokens[a1.SignatureString()].Scope = spare
		if vfBool("drop") {
			delete(r.PostForm, "scope")
			delete(r.Form, "scope")
		}
	case f < len(fields):
		if vfBool("drop") {
			delete(r.PostForm, fields[f])
			delete(r.Form, fields[f])
		} else {
			vfSet(r, fields[f], vfString("v", 0, n))
		}
	case f == len(fields):
		r.Method = vfString("v", 0, 4)
	case f == len(fields)+1:
		r.URL.Path = vfString("v", 0, 4) // too short to name another endpoint
	case f == len(fields)+2:
		delete(r.Header, "Authorization")
	case f == len(fields)+3:
		r.SetBasicAuth("c1", vfString("v", 0, n))
	case f == len(fields)+4:
		r.Header["Authorization"] = []string{vfString("v", 0, n)}
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(vfEntitiesSame(sn, s), "P15.entities")
	vfAssert(vfConfigSame(sn, s), "P15.config")
	vfAssert(vfUnlocked(s), "P15.lock")
	if vfStoresSame(sn, s) {
		// nothing changed: then nothing was handed out either
		if w.status() == 200 && op < 4 {
			_, at := vfJSONStr(w.body, "access_token")
			vfAssert(!at, "P15.handed-out-without-trace")
		}
		vfReach("refused")
		return
	}
	// the state changed: the request must have been answered with success and
	// the operation it performed is the one it named
	done := op
	if op < 4 && f < len(fields) && fields[f] == "grant_type" && !vfBoolDropped(r, "grant_type") {
		done = vfGrantOp(r.PostForm["grant_type"][0], op)
	}
	if op == 8 && r.Method == "POST" {
		done = 6
	}
	if op >= 6 && f == 1 {
		if rt := r.Form["response_type"]; len(rt) > 0 && rt[0] == "code" {
			done = 7
		} else {
			done = 6
		}
	}
	if done < 6 {
		vfAssert(w.status() == 200, "P15.effect-needs-success")
	} else {
		vfAssert(w.status() == 303, "P15.effect-needs-success")
		_, query, frag, _, _ := vfLocSplit(w.get("Location"))
		qp, _ := vfPairs(query)
		fp, _ := vfPairs(frag)
		vfAssert(vfPairVal(qp, "error") == "" && vfPairVal(fp, "error") == "", "P15.effect-needs-success")
	}
	vfDelta(s, sn, done, k1, r1, a1, "P15")
	vfReach("served")
}

func vfBoolDropped(r *http.Request, k string) bool { return len(r.PostForm[k]) == 0 }

func vfGrantOp(g string, def int) int {
	switch g {
	case "password":
		return 0
	case "client_credentials":
		return 1
	case "authorization_code":
		return 2
	case "refresh_token":
		return 3
	}
	return def
}

// A refused request never spoils a later valid one: after any single
// refused attempt the unmodified request is still served.
// bounds: 9 operations; one attribute out of 17 replaced by 0-2 arbitrary bytes or removed in the first attempt
// reach: recovered
func vfH_P15_retry() {
	s, k1, r1, a1 := vfWorld()
	op := vfChoice("op", 9)
	r := vfAnyReq(op, k1, r1, a1)
	bad := vfAnyReq(op, k1, r1, a1)
	fields := []string{"grant_type", "response_type", "client_id", "username", "password", "scope", "code", "refresh_token", "redirect_uri", "token", "token_type_hint"}
	f := vfChoice("field", len(fields)+3)
	switch {
	case f < len(fields):
		if vfBool("drop") {
			delete(bad.PostForm, fields[f])
			delete(bad.Form, fields[f])
		} else {
			vfSet(bad, fields[f], vfString("v", 0, 2))
		}
	case f == len(fields):
		delete(bad.Header, "Authorization")
	case f == len(fields)+1:
		bad.SetBasicAuth("c1", vfString("v", 0, 2))
	case f == len(fields)+2:
		bad.SetBasicAuth("c2", "s2")
	}
	w := vfServe(s, bad)
	if w.status() == 200 || (w.status() == 303 && op >= 6) {
		_, query, frag, _, _ := vfLocSplit(w.get("Location"))
		qp, _ := vfPairs(query)
		fp, _ := vfPairs(frag)
		vfAssume(vfPairVal(qp, "error") != "" || vfPairVal(fp, "error") != "")
	}
	sn := vfSnapshot(s)
	w = vfServe(s, r)
	if op < 6 || op == 8 {
		vfAssert(w.status() == 200, "P15.retry-served")
	} else {
		vfAssert(w.status() == 303, "P15.retry-served")
	}
	vfDelta(s, sn, op, k1, r1, a1, "P15.retry")
	vfReach("recovered")
}

// In a server that stores very many credentials, clients and users, a request
// is served or refused as in a small one and changes exactly as much.
// bounds: 1100 (thorough: 4200) further credentials of each kind, clients and users, live, expired and spent, of the same and of other clients; 9 operations, correct or with a wrong password, token, code or client secret
// reach: served refused
func vfH_P15_crowded() {
	n := 1100
	if vfThorough() {
		n = 4200
	}
	s, k1, r1, a1 := vfWorld()
	vfAssume(vfNuis == 0)
	vfCrowd(s, n)
	op := vfChoice("op", 9)
	r := vfAnyReq(op, k1, r1, a1)
	bad := vfBool("bad")
	if bad {
		switch op {
		case 0, 6, 7, 8:
			vfSet(r, "password", "p1001")
			if op == 8 {
				vfSet(r, "redirect_uri", "http://crowd/1001")
			}
		case 1, 4, 5:
			r.SetBasicAuth("c1", "s1001")
		case 2:
			vfSet(r, "code", vfTok(77).String())
		case 3:
			vfSet(r, "refresh_token", a1.String())
		}
	}
	sn := vfSnapshot(s)
	w := vfServe(s, r)
	vfAssert(len(w.codes) == 1, "P15.crowded-one-response")
	vfAssert(vfEntitiesSame(sn, s) && vfConfigSame(sn, s), "P15.crowded-entities-kept")
	if bad {
		vfAssert(w.status() >= 400 && w.status() < 500 || w.status() == 303, "P15.crowded-refused")
		vfAssert(vfStoresSame(sn, s), "P15.crowded-refused-changes-nothing")
		vfReach("refused")
		return
	}
	vfAssert(w.status() == 200 || w.status() == 303, "P15.crowded-served")
	vfDelta(s, sn, op, k1, r1, a1, "P15.crowded")
	if op == 4 {
		active, ok := vfJSONBool(w.body, "active")
		vfAssert(ok && active, "P15.crowded-introspects")
	}
	ok, _ := vfAuthz(s, a1.String(), Scope{"x"})
	vfAssert(ok == (op != 5), "P15.crowded-token-works")
	vfReach("served")
}
