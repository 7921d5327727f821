package oauth2

import (
	"crypto/hmac"
	"crypto/sha256"
)

// vfMAC is the MAC computed without the package.
func vfMAC(secret, key []byte) []byte {
	h := hmac.New(sha256.New, secret)
	_, _ = h.Write(key)
	return h.Sum(nil)
}

// vfSec yields a secret of the given length whose last byte is not zero (HMAC
// pads short secrets with zero bytes, so trailing zeros are not significant).
func vfSec(name string, n int) []byte {
	b := vfBytes(name, n)
	if n > 0 {
		vfAssume(b[n-1] != 0)
	}
	return b
}

func vfBytesEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		if a[i] != b[i] {
			eq = false
		}
	}
	return eq
}

// Valid and Equal accept a signature exactly when it is the full MAC of the
// key under the secret: any flipped bit, truncation or extension is refused.
// bounds: secret of 0, 1, 3, 16, 64 or 65 symbolic bytes, key of 0-3, 16, 33 or 65 symbolic bytes, signature of 0, 1, 16, 31, 32, 33 or 64 bytes (MAC xor symbolic mask)
// reach: valid flipped truncated extended
func vfH_P02_valid() {
	sl := []int{0, 1, 3, 16, 64, 65}[vfChoice("sl", 6)]
	kl := []int{0, 1, 2, 3, 16, 33, 65}[vfChoice("kl", 7)]
	secret := vfSec("secret", sl)
	key := vfBytes("key", kl)
	mac := vfMAC(secret, key)
	vfAssert(vfBytesEq(HS256TokenFromKey(secret, key).Signature, mac), "P02.full-mac")
	vfAssert(len(mac) == 32, "P02.mac-length")
	gl := []int{32, 0, 1, 16, 31, 33, 64}[vfChoice("gl", 7)]
	mask := vfBytes("mask", gl)
	sig := make([]byte, gl)
	same := gl == 32
	for i := range sig {
		if i < 32 {
			sig[i] = mac[i] ^ mask[i]
			if mask[i] != 0 {
				same = false
			}
		} else {
			sig[i] = mask[i]
		}
	}
	t := &HS256Token{Key: key, Signature: sig}
	vfAssert(t.Valid(secret) == same, "P02.valid-iff")
	vfAssert(t.Equal(mac) == same, "P02.equal-iff")
	if same {
		vfReach("valid")
	} else if gl == 32 {
		vfReach("flipped")
	} else if gl < 32 {
		vfReach("truncated")
	} else {
		vfReach("extended")
	}
}

// A token string parses exactly when it carries a key and that key's full MAC
// under the same secret; the parsed token is the presented one.
// bounds: secret of 16 symbolic bytes, key of 0, 1, 3, 16, 33 or 65 symbolic bytes, signature MAC xor 32-byte symbolic mask, or a truncated/extended one
// reach: parsed rejected
func vfH_P02_parse() {
	secret := vfSec("secret", 16)
	kl := []int{0, 1, 3, 16, 33, 65}[vfChoice("kl", 6)]
	key := vfBytes("key", kl)
	good := &HS256Token{Key: key, Signature: vfMAC(secret, key)}
	gl := []int{32, 31, 33, 0}[vfChoice("gl", 4)]
	mask := vfBytes("mask", gl)
	sig := make([]byte, gl)
	same := gl == 32
	for i := range sig {
		if i < 32 {
			sig[i] = good.Signature[i] ^ mask[i]
			if mask[i] != 0 {
				same = false
			}
		} else {
			sig[i] = mask[i]
		}
	}
	str := b64.EncodeToString(key) + "." + b64.EncodeToString(sig)
	t, err := ParseHS256Token(secret, str)
	vfAssert((err == nil) == same, "P02.parse-iff")
	if err == nil {
		vfAssert(vfBytesEq(t.Key, key) && vfBytesEq(t.Signature, good.Signature), "P02.parse-content")
		vfReach("parsed")
	} else {
		vfAssert(t == nil, "P02.error-no-token")
		vfReach("rejected")
	}
}

// A token issued under one secret is refused under every other secret, and a
// signature made for one key is refused for every other key.
// bounds: two secrets of 16 symbolic bytes, two keys of 2, 16, 33 or 65 symbolic bytes
// reach: other-secret other-key same
func vfH_P02_foreign() {
	s1, s2 := vfSec("s1", 16), vfSec("s2", 16)
	kl := []int{2, 16, 33, 65}[vfChoice("kl", 4)]
	k1, k2 := vfBytes("k1", kl), vfBytes("k2", kl)
	t1 := HS256TokenFromKey(s1, k1)
	str := b64.EncodeToString(k2) + "." + t1.SignatureString()
	_, err := ParseHS256Token(s2, str)
	if !vfBytesEq(s1, s2) {
		vfAssert(err != nil, "P02.other-secret")
		vfReach("other-secret")
	} else if !vfBytesEq(k1, k2) {
		vfAssert(err != nil, "P02.other-key")
		vfReach("other-key")
	} else {
		vfAssert(err == nil, "P02.same")
		vfReach("same")
	}
}

// Strings that are not two base64 segments are refused without a panic.
// bounds: arbitrary strings of at most 6 (thorough: 7) bytes
// reach: rejected
func vfH_P02_garbage() {
	n := 6
	if vfThorough() {
		n = 7
	}
	str := vfString("str", 0, n)
	t, err := ParseHS256Token(vfSecret(), str)
	vfAssert(err != nil && t == nil, "P02.garbage")
	vfReach("rejected")
}

// A genuine token string altered in any single byte, by a missing or extra
// byte, by an extra segment or by swapped segments is refused unless it still
// decodes to the very same key and signature.
// bounds: one concrete key of 15, 16 or 17 bytes; one symbolic byte written or inserted at any position; deletion at any position; 4 segment manipulations
// reach: rejected same-token
func vfH_P02_mutate() {
	key := []byte("\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11")
	good := HS256TokenFromKey(vfSecret(), key[:15+vfChoice("key", 3)])
	g := good.String()
	n := len(g)
	str := g
	kind := vfChoice("kind", 8)
	switch kind {
	case 0:
		p := vfChoice("pos", n)
		str = g[:p] + string([]byte{vfByte("b")}) + g[p+1:]
	case 1:
		p := vfChoice("pos", n+1)
		str = g[:p] + string([]byte{vfByte("b")}) + g[p:]
	case 2:
		p := vfChoice("pos", n)
		str = g[:p] + g[p+1:]
	case 3:
		str = g + "." + good.SignatureString()
	case 4:
		str = good.SignatureString() + "." + good.KeyString()
	case 5:
		str = good.KeyString()
	case 6:
		str = good.KeyString() + "." + good.SignatureString() + good.SignatureString()
	case 7:
		str = "." + good.SignatureString()
	}
	t, err := ParseHS256Token(vfSecret(), str)
	if err == nil {
		vfAssert(vfBytesEq(t.Key, good.Key) && vfBytesEq(t.Signature, good.Signature), "P02.mutate-content")
		vfAssert(kind < 2, "P02.mutate-structure")
		digits := 0
		for i := 0; i < len(str); i++ {
			if vfTokenByte(str[i]) {
				digits++ // line breaks do not count
			} else {
				vfAssert(str[i] == '\n' || str[i] == '\r', "P02.mutate-alphabet")
			}
		}
		vfAssert(digits == n, "P02.mutate-length")
		vfReach("same-token")
	} else {
		vfAssert(t == nil, "P02.mutate-nil")
		vfReach("rejected")
	}
}

// Long keys and secrets are covered in full.
// bounds: key or secret of 300, 1100 or 4200 bytes, one of them (at the start, middle or end) arbitrary, against the token of the fixed key or secret
// reach: same other
func vfH_P02_long() {
	n := []int{300, 1100, 4200}[vfChoice("n", 3)]
	a := make([]byte, n)
	for i := range a {
		a[i] = byte(i*7 + i/256 + 1)
	}
	b := append([]byte{}, a...)
	pos := []int{0, n / 2, n - 1}[vfChoice("pos", 3)]
	b[pos] = vfByte("b")
	same := b[pos] == a[pos]
	sec := []byte("vf-secret-012345")
	if vfBool("key") {
		t := HS256TokenFromKey(sec, a)
		got, err := ParseHS256Token(sec, t.String())
		vfAssert(err == nil && vfBytesEq(got.Key, a) && vfBytesEq(got.Signature, t.Signature), "P02.long-key-roundtrip")
		forged := &HS256Token{Key: b, Signature: t.Signature}
		vfAssert(forged.Valid(sec) == same, "P02.long-key-valid")
		got, err = ParseHS256Token(sec, forged.String())
		vfAssert((err == nil) == same && (got != nil) == same, "P02.long-key-parse")
	} else {
		t := HS256TokenFromKey(a, sec)
		vfAssert(t.Valid(a) && t.Valid(b) == same, "P02.long-secret-valid")
		_, err := ParseHS256Token(b, t.String())
		vfAssert((err == nil) == same, "P02.long-secret-parse")
	}
	if same {
		vfReach("same")
	} else {
		vfReach("other")
	}
}

// Whether a token is genuine depends on nothing that was checked before: the
// same string under one secret and then another, and back, is judged anew
// each time, and a token that was handed out can be changed by its owner
// without effect on the next one.
// bounds: two secrets of 1-2 (thorough: 1-3) symbolic bytes, a key of 1-2 symbolic bytes, 5 parses in a row of the two tokens of the key, with the parsed ones overwritten in between
// reach: same other
func vfH_P02_history() {
	n := 2
	if vfThorough() {
		n = 3
	}
	sa := vfSec("sa", 1+vfChoice("sla", n))
	sb := vfSec("sb", 1+vfChoice("slb", n))
	key := vfBytes("key", 1+vfChoice("kl", 2))
	k0 := append([]byte{}, key...)
	same := vfBytesEq(sa, sb)
	ta, tb := HS256TokenFromKey(sa, append([]byte{}, key...)).String(), HS256TokenFromKey(sb, append([]byte{}, key...)).String()
	for i := 0; i < 5; i++ {
		sec, own := sa, true
		if i%2 == 1 {
			sec, own = sb, same
		}
		str := ta
		if i == 3 {
			str, own = tb, true
		} else if i == 4 {
			str, own = tb, same
		}
		tk, err := ParseHS256Token(sec, str)
		vfAssert((err == nil) == own && (tk != nil) == own, "P02.history-iff")
		if own {
			vfAssert(vfBytesEq(tk.Key, k0) && vfBytesEq(tk.Signature, vfMAC(sec, k0)), "P02.history-token")
			vfAssert(tk.Valid(sec) && tk.String() == str, "P02.history-valid")
			for j := range tk.Key {
				tk.Key[j] ^= 0x55
			}
			for j := range tk.Signature {
				tk.Signature[j] ^= 0x55
			}
		}
	}
	if same {
		vfReach("same")
	} else {
		vfReach("other")
	}
}
