package oauth2

import (
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"
)

// ---- recorder ----

// vfRec is a response writer that records the exact call sequence.
type vfRec struct {
	h      http.Header
	snap   http.Header // headers at the first WriteHeader/Write
	codes  []int
	body   []byte
	writes int
	fail   error // what Write returns instead of writing
}

func vfNewRec() *vfRec { return &vfRec{h: http.Header{}} }

func (r *vfRec) Header() http.Header { return r.h }

func (r *vfRec) WriteHeader(code int) {
	vfJitter()
	if len(r.codes) == 0 {
		r.snap = http.Header{}
		for k, v := range r.h {
			r.snap[k] = append([]string{}, v...)
		}
	}
	r.codes = append(r.codes, code)
}

func (r *vfRec) Write(b []byte) (int, error) {
	vfJitter()
	if len(r.codes) == 0 {
		r.WriteHeader(200)
	}
	r.writes++
	if r.fail != nil {
		return 0, r.fail
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

// status is the status of the single response; 0 when none was written.
func (r *vfRec) status() int {
	if len(r.codes) == 0 {
		return 0
	}
	return r.codes[0]
}

func (r *vfRec) get(key string) string {
	if r.snap == nil {
		return ""
	}
	v := r.snap[key]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

func (r *vfRec) has(key string) bool {
	_, ok := r.snap[key]
	return ok
}

// ---- servers and credentials ----

func vfSecret() []byte { return []byte("vf-secret-012345") }

func vfTok(n byte) *HS256Token {
	key := make([]byte, 16)
	for i := range key {
		key[i] = n + byte(i)
	}
	return HS256TokenFromKey(vfSecret(), key)
}

// vfNewServer also moves the clock off the whole second.
func vfNewServer(allowed Scope) *Server {
	time.Sleep(123456789)
	return NewServer(DefaultServerConfig(vfSecret(), allowed))
}

// vfCred stores a credential under the given token.
func vfCred(m map[string]*ServerCredential, tk *HS256Token, c ServerCredential) *ServerCredential {
	cc := c
	m[tk.SignatureString()] = &cc
	return &cc
}

func vfUnlocked(s *Server) bool {
	if s.Mutex.TryLock() {
		s.Mutex.Unlock()
		return true
	}
	return false
}

func vfNow() time.Time { return time.Now() }

// vfExpiry yields an instant and whether it has passed: whole second offsets
// from now of up to three years either way are symbolic, sub-second parts are
// enumerated, and so are three instants far away.
func vfExpiry(name string) (time.Time, bool) {
	now := time.Now()
	ns := 0
	kind := vfChoice(name+".ns", vfIn(7, 4))
	switch kind {
	case 4:
		return time.Time{}, true
	case 5:
		return time.Unix(0, 0), true
	case 6:
		return time.Unix(253402300799, 0), false // the last second of 9999
	}
	sec := vfInt(name+".sec", -100000000, 100000000)
	switch kind {
	case 1:
		ns = 1
	case 2:
		ns = 999999999
	case 3:
		ns = 500000000
	}
	at := now.Add(time.Duration(ns))
	at = time.Unix(at.Unix()+int64(sec), int64(at.Nanosecond()))
	return at, sec < 0
}

// vfScopeN yields a scope of up to n items of up to l bytes each (never
// empty, no spaces).
func vfScopeN(name string, n, l int) Scope {
	k := vfChoice(name+".n", n+1)
	var s Scope
	for i := 0; i < k; i++ {
		s = append(s, vfItem1(name, l))
	}
	return s
}

func vfItem1(name string, l int) string {
	it := vfString(name+".i", 1, l)
	for i := 0; i < len(it); i++ {
		vfAssume(it[i] > ' ' && it[i] < 0x7f && it[i] != '"' && it[i] != '\\')
	}
	return it
}

// vfIncludes is an independent subset test.
func vfIncludes(sup, sub Scope) bool {
	all := true
	for i := 0; i < len(sub); i++ {
		one := false
		for j := 0; j < len(sup); j++ {
			if sup[j] == sub[i] {
				one = true
			}
		}
		if !one {
			all = false
		}
	}
	return all
}

func vfScopeEq(a, b Scope) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		if a[i] != b[i] {
			eq = false
		}
	}
	return eq
}

// ---- state snapshots ----

type vfEnt struct {
	key string
	ptr *ServerCredential
	val ServerCredential
}

type vfSnapT struct {
	at, rt, ac []vfEnt
	clients    []vfParty
	users      []vfParty
	config     ServerConfig
}

type vfParty struct {
	id  string
	val ServerEntity
}

func vfParties(m map[string]*ServerEntity) []vfParty {
	var r []vfParty
	for k, p := range m {
		r = append(r, vfParty{k, *p})
	}
	return r
}

func vfPartiesSame(l []vfParty, m map[string]*ServerEntity) bool {
	if len(l) != len(m) {
		return false
	}
	same := true
	for _, x := range l {
		e := m[x.id]
		if e == nil {
			return false
		}
		if e.Secret != x.val.Secret || e.RedirectURI != x.val.RedirectURI || e.Confidential != x.val.Confidential {
			same = false
		}
	}
	return same
}

// vfEntitiesSame reports whether clients and users are those of the snapshot.
func vfEntitiesSame(sn *vfSnapT, s *Server) bool {
	return vfPartiesSame(sn.clients, s.Clients) && vfPartiesSame(sn.users, s.Users)
}

// vfConfigSame reports whether the configuration is that of the snapshot.
func vfConfigSame(sn *vfSnapT, s *Server) bool {
	return s.Config.KeyLength == sn.config.KeyLength && s.Config.AccessTokenLifespan == sn.config.AccessTokenLifespan &&
		s.Config.RefreshTokenLifespan == sn.config.RefreshTokenLifespan && s.Config.AuthorizationCodeLifespan == sn.config.AuthorizationCodeLifespan &&
		vfScopeEq(s.Config.AllowedScope, sn.config.AllowedScope) && string(s.Config.Secret) == string(sn.config.Secret)
}

func vfSnapMap(m map[string]*ServerCredential) []vfEnt {
	var r []vfEnt
	for k, p := range m {
		v := *p
		v.Scope = append(Scope{}, p.Scope...)
		r = append(r, vfEnt{k, p, v})
	}
	return r
}

func vfSnapshot(s *Server) *vfSnapT {
	cfg := s.Config
	cfg.AllowedScope = append(Scope{}, cfg.AllowedScope...)
	cfg.Secret = append([]byte{}, cfg.Secret...)
	return &vfSnapT{vfSnapMap(s.AccessTokens), vfSnapMap(s.RefreshTokens), vfSnapMap(s.AuthorizationCodes), vfParties(s.Clients), vfParties(s.Users), cfg}
}

func vfCredEq(a, b *ServerCredential) bool {
	return a.ClientID == b.ClientID && a.Username == b.Username && a.ExpiresAt.Equal(b.ExpiresAt) &&
		vfScopeEq(a.Scope, b.Scope) && a.RedirectURI == b.RedirectURI && a.Code == b.Code && a.Used == b.Used
}

// vfKeeps reports whether every entry of the snapshot is still stored,
// unchanged, except those listed.
func vfKeeps(e []vfEnt, m map[string]*ServerCredential, except ...string) bool {
	for _, x := range e {
		skip := false
		for _, k := range except {
			if k == x.key {
				skip = true
			}
		}
		if skip {
			continue
		}
		c, ok := m[x.key]
		if !ok || c == nil || !vfCredEq(c, &x.val) {
			return false
		}
	}
	return true
}

// vfSame reports whether the server state equals the snapshot.
func vfSame(sn *vfSnapT, s *Server) bool {
	return vfEntitiesSame(sn, s) && vfConfigSame(sn, s) && vfStoresSame(sn, s)
}

// vfStoresSame reports whether the stored credentials equal the snapshot.
func vfStoresSame(sn *vfSnapT, s *Server) bool {
	return len(s.AccessTokens) == len(sn.at) && len(s.RefreshTokens) == len(sn.rt) && len(s.AuthorizationCodes) == len(sn.ac) &&
		vfKeeps(sn.at, s.AccessTokens) && vfKeeps(sn.rt, s.RefreshTokens) && vfKeeps(sn.ac, s.AuthorizationCodes)
}

// vfAdded lists the keys stored now that the snapshot lacks.
func vfAdded(e []vfEnt, m map[string]*ServerCredential) []string {
	var r []string
	known := map[string]bool{}
	for _, x := range e {
		known[x.key] = true
	}
	for k := range m {
		if !known[k] {
			r = append(r, k)
		}
	}
	return r
}

// ---- requests ----

func vfReq(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{},
		Form: url.Values{}, PostForm: url.Values{}, Body: http.NoBody}
}

// vfSet sets a body parameter (visible through Form as well).
func vfSet(r *http.Request, k, v string) {
	r.PostForm[k] = []string{v}
	r.Form[k] = append([]string{v}, r.Form[k]...)
}

// vfQuery sets a query parameter.
func vfQuery(r *http.Request, k, v string) {
	r.Form[k] = append(r.Form[k], v)
}

func vfServe(s *Server, r *http.Request) *vfRec {
	w := vfNewRec()
	s.ServeHTTP(w, r)
	return w
}

// vfSigOf returns the signature segment of a token string.
func vfSigOf(tok string) string {
	i := strings.IndexByte(tok, '.')
	if i < 0 {
		return ""
	}
	return tok[i+1:]
}

// vfAuthz runs Authorize with the given bearer token string.
func vfAuthz(s *Server, tok string, required Scope) (bool, *vfRec) {
	r := vfReq("GET", "/api")
	r.Header["Authorization"] = []string{"Bearer " + tok}
	w := vfNewRec()
	ok := s.Authorize(w, r, required)
	return ok, w
}

// vfReader is a scripted random source.
type vfReader struct {
	data  []byte
	pos   int
	chunk int // bytes per call, 0 = all
	fail  int // bytes after which the source fails, -1 = never
	err   error
	calls int
}

func (r *vfReader) Read(p []byte) (int, error) {
	vfJitter()
	r.calls++
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if r.fail >= 0 && r.pos+n > r.fail {
		n = r.fail - r.pos
		if n <= 0 {
			return 0, r.err
		}
	}
	for i := 0; i < n; i++ {
		if r.pos < len(r.data) {
			p[i] = r.data[r.pos]
		} else {
			p[i] = byte(r.pos*7 + 13)
		}
		r.pos++
	}
	return n, nil
}

var _ io.Reader = (*vfReader)(nil)

// vfBody is a request or response body.
type vfBody struct {
	data   []byte
	pos    int
	chunk  int
	err    error // returned after the data instead of EOF
	closed int
	reads  int
}

func (b *vfBody) Read(p []byte) (int, error) {
	b.reads++
	if b.pos >= len(b.data) {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := len(b.data) - b.pos
	if n > len(p) {
		n = len(p)
	}
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	copy(p[:n], b.data[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func (b *vfBody) Close() error { b.closed++; return nil }

// vfSized yields a string in one of several length regimes: up to n bytes,
// or exactly 33, 80 or 260 bytes.
func vfSized(name string, n int) string {
	switch vfChoice(name+".regime", 4) {
	case 1:
		return vfString(name, 33, 33)
	case 2:
		return vfString(name, 80, 80)
	case 3:
		return vfString(name, 260, 260)
	}
	return vfString(name, 0, n)
}

// vfLong yields a long string: a fixed text of 70, 300, 1100 or 4200 bytes (as
// far as max allows) with one symbolic byte at its start, middle or end.
func vfLong(name string, max int) string { return vfLongIn(name, max, "") }

// vfLongIn is vfLong with the symbolic byte out of a set (any byte if empty).
func vfLongIn(name string, max int, set string) string {
	var ns []int
	for _, n := range []int{70, 300, 1100, 4200} {
		if n <= max {
			ns = append(ns, n)
		}
	}
	n := ns[vfChoice(name+".len", len(ns))]
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-_"[i%38]
	}
	pos := []int{0, n / 2, n - 1}[vfChoice(name+".pos", 3)]
	if set != "" {
		return string(b[:pos]) + vfStringIn(name, 1, 1, set) + string(b[pos+1:])
	}
	return string(b[:pos]) + vfString(name, 1, 1) + string(b[pos+1:])
}
