package oauth2

import (
	"errors"
	"io"
)

// A generated token's key is exactly the configured number of bytes taken in
// order from the random source, however the source splits them up, and its
// signature is the MAC of that key.
// bounds: key length 0, 1, 15, 16, 17, 32, 33 or 65 symbolic bytes, source delivering 1, 3, 7 or all bytes per read
// reach: generated
func vfH_P03_entropy() {
	n := []int{0, 1, 15, 16, 17, 32, 33, 65}[vfChoice("n", 8)]
	secret := vfSec("secret", 16)
	src := &vfReader{data: vfBytes("rnd", n), chunk: []int{0, 1, 3, 7}[vfChoice("chunk", 4)], fail: -1}
	old := randSource
	randSource = src
	var t *HS256Token
	var err error
	switch vfChoice("api", 3) {
	case 0:
		t, err = GenerateHS256Token(secret, n)
	case 1:
		t = MustGenerateHS256Token(secret, n)
	case 2:
		c := DefaultServerConfig(secret, nil)
		c.KeyLength = n
		t = c.MustGenerate()
	}
	randSource = old
	vfAssert(err == nil && t != nil, "P03.no-error")
	vfAssert(len(t.Key) == n, "P03.key-length")
	vfAssert(vfBytesEq(t.Key, src.data), "P03.key-is-entropy")
	vfAssert(src.pos == n, "P03.consumes-exactly")
	vfAssert(vfBytesEq(t.Signature, vfMAC(secret, src.data)), "P03.signature")
	vfAssert(t.Valid(secret), "P03.valid")
	vfReach("generated")
}

// When the random source fails before the key is complete, no token is
// returned: generation reports an error and the Must variants panic.
// bounds: key length 1, 16 or 32; source failing after any number of bytes below the length, with io.EOF, io.ErrUnexpectedEOF or another error; 1, 3 or all bytes per read
// reach: error panic
func vfH_P03_failure() {
	n := []int{1, 16, 32}[vfChoice("n", 3)]
	k := vfChoice("k", n)
	ferr := []error{io.EOF, errors.New("entropy failure"), io.ErrUnexpectedEOF}[vfChoice("err", 3)]
	src := &vfReader{chunk: []int{0, 1, 3}[vfChoice("chunk", 3)], fail: k, err: ferr}
	old := randSource
	randSource = src
	api := vfChoice("api", 3)
	if api == 0 {
		t, err := GenerateHS256Token(vfSecret(), n)
		randSource = old
		vfAssert(err != nil, "P03.failure-reported")
		vfAssert(t == nil, "P03.failure-no-token")
		vfReach("error")
		return
	}
	panicked := false
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		if api == 1 {
			MustGenerateHS256Token(vfSecret(), n)
		} else {
			c := DefaultServerConfig(vfSecret(), nil)
			c.KeyLength = n
			c.MustGenerate()
		}
	}()
	randSource = old
	vfAssert(panicked, "P03.must-panics")
	vfReach("panic")
}

func vfTokenByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.'
}

// Printing and parsing a token under its secret yields the same token.
// bounds: secret of 16 symbolic bytes, key of 0, 1, 2, 3, 16, 32, 33 or 65 symbolic bytes
// reach: roundtrip
func vfH_P03_roundtrip() {
	secret := vfSec("secret", 16)
	kl := []int{0, 1, 2, 3, 16, 32, 33, 65}[vfChoice("kl", 8)]
	key := vfBytes("key", kl)
	t := HS256TokenFromKey(secret, key)
	str := t.String()
	u, err := ParseHS256Token(secret, str)
	vfAssert(err == nil, "P03.roundtrip-parses")
	vfAssert(vfBytesEq(u.Key, key), "P03.roundtrip-key")
	vfAssert(vfBytesEq(u.Signature, t.Signature), "P03.roundtrip-signature")
	vfAssert(u.String() == str, "P03.roundtrip-string")
	vfAssert(str == t.KeyString()+"."+t.SignatureString(), "P03.string-format")
	safe := true
	for i := 0; i < len(str); i++ {
		if !vfTokenByte(str[i]) {
			safe = false
		}
	}
	vfAssert(safe, "P03.url-safe")
	vfReach("roundtrip")
}

// Different keys give different token strings and signatures.
// bounds: 16-byte secret, two keys of 16 symbolic bytes, or of 2 and 3 bytes
// reach: distinct
func vfH_P03_distinct() {
	secret := vfSec("secret", 16)
	var k1, k2 []byte
	if vfChoice("len", 2) == 0 {
		k1, k2 = vfBytes("k1", 16), vfBytes("k2", 16)
		vfAssume(!vfBytesEq(k1, k2))
	} else {
		k1, k2 = vfBytes("k1", 2), vfBytes("k2", 3)
	}
	t1, t2 := HS256TokenFromKey(secret, k1), HS256TokenFromKey(secret, k2)
	vfAssert(t1.SignatureString() != t2.SignatureString(), "P03.distinct-signature")
	vfAssert(t1.KeyString() != t2.KeyString(), "P03.distinct-key")
	vfReach("distinct")
}

// A failing random source aborts the request without leaving the server
// locked or with a new credential.
// bounds: 7 issuing operations; the source fails at once, after 1-40 bytes (symbolic choice), with an error
// reach: failed served
func vfH_P03_endpoint() {
	s, k1, r1, a1 := vfWorld()
	op := []int{0, 1, 2, 3, 6, 7}[vfChoice("op", 6)]
	old := randSource
	src := &vfReader{fail: vfChoice("fail", 41), err: io.EOF}
	randSource = src
	sn := vfSnapshot(s)
	r := vfAnyReq(op, k1, r1, a1)
	w := vfNewRec()
	failed := vfTry(func() { s.ServeHTTP(w, r) })
	randSource = old
	vfAssert(vfUnlocked(s), "P03.abort-unlocks")
	if failed || w.status() >= 400 {
		// the presented code or refresh token may be lost, nothing may be gained
		vfAssert(vfEntitiesSame(sn, s) && vfConfigSame(sn, s), "P03.abort-entities")
		vfAssert(len(vfAdded(sn.at, s.AccessTokens))+len(vfAdded(sn.rt, s.RefreshTokens))+len(vfAdded(sn.ac, s.AuthorizationCodes)) == 0, "P03.abort-no-credential")
		vfAssert(vfKeeps(sn.at, s.AccessTokens) && vfKeeps(sn.rt, s.RefreshTokens, r1.SignatureString()) &&
			vfKeeps(sn.ac, s.AuthorizationCodes, k1.SignatureString()), "P03.abort-others-kept")
		vfAssert(!vfTokenIn(w) && !w.has("Location"), "P03.abort-no-token")
		vfReach("failed")
		// the server keeps working
		if op == 2 || op == 3 {
			op = 0
		}
		w2 := vfServe(s, vfAnyReq(op, k1, r1, a1))
		vfAssert(w2.status() == 200 || w2.status() == 303, "P03.abort-recovers")
		return
	}
	vfReach("served")
}

func vfTry(f func()) (failed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vfAbort); ok {
				panic(r)
			}
			failed = true
		}
	}()
	f()
	return false
}

// The default configuration and every server made from it draw keys of 16
// bytes under the given secret, in full from the random source.
// bounds: secret of 16 symbolic bytes; 16 symbolic random bytes; token from the configuration or as issued by a server for a client credentials grant
// reach: config server
func vfH_P03_defaults() {
	secret := vfSec("secret", 16)
	c := DefaultServerConfig(secret, Scope{"x"})
	vfAssert(c.KeyLength == 16, "P03.default-key-length")
	vfAssert(vfBytesEq(c.Secret, secret), "P03.default-secret")
	src := &vfReader{data: vfBytes("rnd", 64), fail: -1}
	old := randSource
	randSource = src
	if vfBool("server") {
		s := NewServer(c)
		s.Clients["c1"] = &ServerEntity{Secret: "s1", Confidential: true}
		r := vfReq("POST", "/oauth2/token")
		r.SetBasicAuth("c1", "s1")
		vfSet(r, "grant_type", "client_credentials")
		vfSet(r, "scope", "x")
		vfServe(s, r)
		randSource = old
		vfAssert(len(s.AccessTokens) == 1, "P03.default-issued")
		vfAssert(src.pos >= 16, "P03.default-consumed")
		for k := range s.AccessTokens {
			vfAssert(k == HS256TokenFromKey(secret, src.data[:16]).SignatureString() || k == HS256TokenFromKey(secret, src.data[16:32]).SignatureString(), "P03.default-server-token")
		}
		vfReach("server")
		return
	}
	t := c.MustGenerate()
	randSource = old
	vfAssert(vfBytesEq(t.Key, src.data[:16]) && src.pos == 16, "P03.default-token-key")
	vfAssert(t.Valid(secret), "P03.default-token-valid")
	vfReach("config")
}
