// only: P31

package oauth2

import (
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/256dpi/oauth2/v2/oauth2test"
)

// vfCounter is a random source that never repeats a key.
type vfCounter struct{ n int }

func (c *vfCounter) Read(p []byte) (int, error) {
	c.n++
	for i := range p {
		p[i] = byte(i)
	}
	if len(p) > 1 {
		p[0], p[1] = byte(c.n), byte(c.n>>8)
	}
	return len(p), nil
}

var _ io.Reader = (*vfCounter)(nil)

// vfConf is a conforming authorization server with a protected resource, the
// description of it the suite gets, and a hook on every answer.
type vfConf struct {
	s       *Server
	spec    *oauth2test.Spec
	headers bool // resource owner credentials travel in headers
	before  func(r *http.Request)
	after   func(r *http.Request, w *vfRec)
}

func vfNewConf(headers bool) *vfConf {
	randSource = &vfCounter{}
	s := vfNewServer(Scope{"foo", "bar"})
	s.Clients["client1"] = &ServerEntity{Secret: "sec1", RedirectURI: "http://example.com/cb1", Confidential: true}
	s.Clients["client2"] = &ServerEntity{Secret: "sec2", RedirectURI: "http://example.com/cb2"}
	s.Users["user1"] = &ServerEntity{Secret: "pw1"}
	live, dead := time.Now().Add(time.Hour), time.Now().Add(-time.Hour)
	full := Scope{"foo", "bar"}
	vfCred(s.AccessTokens, vfTok(101), ServerCredential{ClientID: "client1", Scope: full, ExpiresAt: live})
	vfCred(s.AccessTokens, vfTok(102), ServerCredential{ClientID: "client1", Scope: full, ExpiresAt: dead})
	vfCred(s.AccessTokens, vfTok(103), ServerCredential{ClientID: "client1", Scope: Scope{}, ExpiresAt: live})
	vfCred(s.RefreshTokens, vfTok(104), ServerCredential{ClientID: "client1", Scope: full, ExpiresAt: live})
	vfCred(s.RefreshTokens, vfTok(105), ServerCredential{ClientID: "client1", Scope: full, ExpiresAt: dead})
	vfCred(s.AuthorizationCodes, vfTok(106), ServerCredential{ClientID: "client1", Scope: full, ExpiresAt: dead})
	c := &vfConf{s: s, headers: headers}
	p := oauth2test.Default(c)
	p.PasswordGrantSupport, p.ClientCredentialsGrantSupport, p.ImplicitGrantSupport = true, true, true
	p.AuthorizationCodeGrantSupport, p.RefreshTokenGrantSupport = true, true
	p.ConfidentialClientID, p.ConfidentialClientSecret, p.PublicClientID = "client1", "sec1", "client2"
	p.ResourceOwnerUsername, p.ResourceOwnerPassword = "user1", "pw1"
	p.InvalidScope, p.ValidScope, p.ExceedingScope = "baz", "foo bar", "foo bar baz"
	p.UnknownToken, p.ValidToken = vfTok(107).String(), vfTok(101).String()
	p.ExpiredToken, p.InsufficientToken = vfTok(102).String(), vfTok(103).String()
	p.PrimaryRedirectURI, p.SecondaryRedirectURI = "http://example.com/cb1", "http://example.com/cb2"
	p.UnknownRefreshToken, p.ValidRefreshToken, p.ExpiredRefreshToken = vfTok(108).String(), vfTok(104).String(), vfTok(105).String()
	p.InvalidAuthorizationCode, p.UnknownAuthorizationCode, p.ExpiredAuthorizationCode = "invalid", vfTok(109).String(), vfTok(106).String()
	if headers {
		p.InvalidAuthorizationHeaders = map[string]string{"X-User": "user1", "X-Password": "invalid"}
		p.ValidAuthorizationHeaders = map[string]string{"X-User": "user1", "X-Password": "pw1"}
	} else {
		p.InvalidAuthorizationParams = map[string]string{"username": "user1", "password": "invalid"}
		p.ValidAuthorizationParams = map[string]string{"username": "user1", "password": "pw1"}
	}
	p.CodeReplayMitigation = true
	c.spec = p
	return c
}

// vfFormOf makes sure that the form of a request is parsed.
func vfFormOf(r *http.Request) {
	if r.PostForm == nil {
		_ = r.ParseForm()
	}
	if r.PostForm == nil {
		r.PostForm = url.Values{}
	}
}

func (c *vfConf) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	vfFormOf(r)
	if c.before != nil {
		c.before(r)
	}
	if c.headers && strings.HasSuffix(r.URL.Path, "/authorize") {
		r.PostForm.Set("username", r.Header.Get("X-User"))
		r.PostForm.Set("password", r.Header.Get("X-Password"))
	}
	rec := vfNewRec()
	if strings.HasPrefix(r.URL.Path, "/oauth2/") {
		c.s.ServeHTTP(rec, r)
	} else if r.URL.Path == "/api/protected" {
		if c.s.Authorize(rec, r, Scope{"foo"}) {
			_, _ = rec.Write([]byte("OK"))
		}
	} else {
		http.NotFound(rec, r)
	}
	if c.after != nil {
		c.after(r, rec)
	}
	for k, v := range rec.h {
		w.Header()[k] = v
	}
	w.WriteHeader(rec.status())
	_, _ = w.Write(rec.body)
}

// run runs a test of the suite; a panic fails it.
func (c *vfConf) run(f func(*testing.T, *oauth2test.Spec)) bool {
	return testing.RunTests(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "suite", F: func(t *testing.T) {
		defer func() {
			if recover() != nil {
				t.Fail()
			}
		}()
		f(t, c.spec)
	}}})
}

func vfSuiteTest(i int) func(*testing.T, *oauth2test.Spec) {
	switch i {
	case 0:
		return oauth2test.ProtectedResourceTest
	case 1:
		return oauth2test.TokenEndpointTest
	case 2:
		return oauth2test.AuthorizationEndpointTest
	case 3:
		return oauth2test.PasswordGrantTest
	case 4:
		return oauth2test.ClientCredentialsGrantTest
	case 5:
		return oauth2test.ImplicitGrantTest
	case 6:
		return oauth2test.AuthorizationCodeGrantTest
	case 7:
		return oauth2test.RefreshTokenGrantTest
	case 8:
		return oauth2test.IntrospectionEndpointTest
	}
	return oauth2test.RevocationEndpointTest
}

// vfFeatures makes the features of the described server symbolic.
func vfFeatures(p *oauth2test.Spec) {
	all := vfThorough()
	set := 0
	if all {
		set = vfChoice("grants", 32)
	} else {
		set = []int{31, 0, 1, 2, 4, 8, 16}[vfChoice("grants", 7)]
	}
	p.PasswordGrantSupport = set&1 != 0
	p.ClientCredentialsGrantSupport = set&2 != 0
	p.ImplicitGrantSupport = set&4 != 0
	p.AuthorizationCodeGrantSupport = set&8 != 0
	p.RefreshTokenGrantSupport = set&16 != 0
	if vfBool("no introspection") {
		p.IntrospectionEndpoint = ""
	}
	if vfBool("no revocation") {
		p.RevocationEndpoint = ""
	}
	p.CodeReplayMitigation = vfBool("mitigation")
}

// The reference server passes the whole suite, whatever features are declared
// and however the resource owner authenticates, and every single test of it.
// bounds: every combination of 7 (thorough: 32) sets of supported grants, introspection, revocation and replay mitigation declared or not, owner credentials in parameters or headers; 10 tests on their own
// reach: run single
func vfH_P31_passes() {
	c := vfNewConf(vfChoice("headers", 2) == 1)
	if vfChoice("how", 2) == 0 {
		vfFeatures(c.spec)
		vfAssert(c.run(oauth2test.Run), "P31.conforming-run-passes")
		vfReach("run")
		return
	}
	vfAssert(c.run(vfSuiteTest(vfChoice("test", 10))), "P31.conforming-test-passes")
	vfReach("single")
}

// vfSubst replaces the value of a parameter in a Location.
func vfSubst(loc, key, val string) string {
	i := strings.Index(loc, "?"+key+"=")
	if i < 0 {
		i = strings.Index(loc, "#"+key+"=")
	}
	if i < 0 {
		i = strings.Index(loc, "&"+key+"=")
	}
	if i < 0 {
		return loc + "&" + key + "=" + val
	}
	i += len(key) + 2
	j := strings.IndexByte(loc[i:], '&')
	if j < 0 {
		return loc[:i] + val
	}
	return loc[:i] + val + loc[i+j:]
}

func vfParam(loc, key string) (string, bool) {
	for _, sep := range []string{"?", "#", "&"} {
		if i := strings.Index(loc, sep+key+"="); i >= 0 {
			v := loc[i+len(key)+2:]
			if j := strings.IndexByte(v, '&'); j >= 0 {
				v = v[:j]
			}
			return v, true
		}
	}
	return "", false
}

const vfLower = "abcdefghijklmnopqrstuvwxyz_"

const vfToken = vfLower + "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.~"

// vfDeviate offers every deviation of one answer the suite has to notice and
// applies one of them; it reports whether the answer is still right.
func vfDeviate(test int, spec *oauth2test.Spec, r *http.Request, w *vfRec) (kind string, right bool) {
	path := r.URL.Path
	api := path == "/api/protected"
	form := r.PostForm
	code := w.status()
	loc := w.h.Get("Location")
	chal := w.h.Get("WWW-Authenticate")
	var kinds []string
	add := func(c bool, k string) {
		if c {
			kinds = append(kinds, k)
		}
	}
	add(true, "status")
	_, isErr := vfJSONStr(w.body, "error")
	add(isErr, "json error")
	add(isErr, "no document")
	tokens := path == "/oauth2/token" && code == 200
	for _, k := range []string{"token_type", "scope", "expires_in", "access_token", "refresh_token"} {
		add(tokens, "json "+k)
	}
	add(tokens, "no document")
	_, locErr := vfParam(loc, "error")
	_, locTok := vfParam(loc, "access_token")
	_, locCode := vfParam(loc, "code")
	add(locErr, "loc error")
	add(loc != "", "loc state")
	add(loc != "", "misplaced")
	for _, k := range []string{"token_type", "scope", "expires_in", "access_token", "refresh_token"} {
		add(locTok, "loc "+k)
	}
	add(locCode, "loc code")
	active, isIntro := vfJSONBool(w.body, "active")
	known := form.Get("token") != spec.UnknownToken
	add(isIntro && known, "active")
	add(isIntro && known && active, "no document")
	add(isIntro && known && active && test != 8, "json token_type")
	refused := api && code >= 400
	add(refused && strings.Contains(chal, "error=") && test != 6, "challenge")
	add(refused && !strings.Contains(chal, "error="), "realm")
	add(refused && test == 0, "body")
	user, pass, basic := r.BasicAuth()
	strict := path == "/oauth2/revoke" || path == "/oauth2/introspect"
	strict = strict && basic && pass == "" && user != spec.PublicClientID
	strict = strict || path == "/oauth2/token" && form.Get("grant_type") == "client_credentials"
	strict = strict || path == "/oauth2/authorize" && form.Get("client_id") == "invalid"
	add(strict && code == 401, "realm")

	kind = kinds[vfChoice("kind", len(kinds))]
	setJSON := func(k string, v interface{}) {
		m := map[string]interface{}{}
		vfAssert(json.Unmarshal(w.body, &m) == nil, "P31.reference-document")
		m[k] = v
		w.body, _ = json.Marshal(m)
	}
	key := kind[strings.IndexByte(kind, ' ')+1:]
	switch kind {
	case "status":
		v := vfInt("status", 200, 599)
		w.codes[0] = v
		if path == "/oauth2/authorize" && r.Method == "GET" {
			return kind, v != 404
		}
		return kind, v == code
	case "no document":
		w.body = []byte([]string{"", "{", "[]", "null", "{}"}[vfChoice("doc", 5)])
		return kind, false
	case "json error", "json token_type", "json scope":
		old, _ := vfJSONStr(w.body, key)
		v := vfStringIn("value", 0, 20, vfToken+" !#$()*,/:;=?@[]^`{|}")
		if vfBool("missing") {
			v = ""
		}
		setJSON(key, v)
		return kind, v == old
	case "json expires_in":
		old, _ := vfJSONInt(w.body, key)
		v := vfInt("value", -100000, 100000)
		setJSON(key, v)
		return kind, v == old
	case "json access_token", "json refresh_token":
		setJSON(key, []interface{}{"", nil, 1, true}[vfChoice("value", 4)])
		return kind, false
	case "active":
		setJSON("active", !active)
		return kind, false
	case "loc error", "loc state", "loc token_type", "loc scope", "loc expires_in":
		old, _ := vfParam(loc, key)
		cs := vfToken
		n := len(old) + 1
		v := vfStringIn("value", 0, n, cs)
		w.h.Set("Location", vfSubst(loc, key, v))
		return kind, v == old
	case "loc access_token", "loc code":
		w.h.Set("Location", vfSubst(loc, key, []string{"", "x"}[vfChoice("value", 2)]))
		return kind, key == "code" && w.h.Get("Location") == loc
	case "loc refresh_token":
		w.h.Set("Location", vfSubst(loc, key, vfStringIn("value", 1, 3, vfLower)))
		return kind, false
	case "misplaced":
		if strings.Contains(loc, "#") {
			loc = strings.Replace(loc, "#", "?", 1)
		} else {
			loc = strings.Replace(loc, "?", "#", 1)
		}
		w.h.Set("Location", loc)
		return kind, false
	case "challenge":
		i := strings.Index(chal, "error=\"") + 7
		j := i + strings.IndexByte(chal[i:], '"')
		v := vfStringIn("value", 0, 19, vfToken+" :;/")
		w.h.Set("WWW-Authenticate", chal[:i]+v+chal[j:])
		return kind, v == chal[i:j]
	case "realm":
		w.h.Set("WWW-Authenticate", []string{`Bearer realm=""`, `Bearer x="y"`, "Bearer"}[vfChoice("value", 3)])
		return kind, false
	case "body":
		w.body = []byte(vfString("value", 1, 2))
		return kind, false
	}
	panic(kind)
}

// A test of the suite fails as soon as one answer deviates in anything the
// suite has to notice, and passes when the answers are right.
// bounds: 10 tests against the reference server, described completely, without replay mitigation and without introspection and revocation (thorough: every combination); one answer of any of them altered: status 200-599; error, token type, scope and state of 0-20 printable characters; lifetime of -100000..100000 (printed in redirects like the other fields); tokens missing, empty or of the wrong kind; documents missing or broken; parameters in the wrong part of the redirect; active flag inverted; challenge without realm; body on a refused resource request
// reach: status json-error json-token_type json-scope json-expires_in json-access_token json-refresh_token no-document active loc-error loc-state loc-token_type loc-scope loc-expires_in loc-access_token loc-refresh_token loc-code misplaced challenge realm body still-right
func vfH_P31_deviation() {
	c := vfNewConf(false)
	test := vfChoice("test", 10)
	drop := 0
	if test >= 3 && test <= 7 {
		if vfThorough() {
			drop = vfChoice("drop", 8)
		} else {
			drop = []int{0, 1, 6}[vfChoice("drop", 3)]
		}
	} else if test == 9 {
		drop = 2 * vfChoice("drop", 2)
	}
	c.spec.CodeReplayMitigation = drop&1 == 0
	if drop&2 != 0 {
		c.spec.IntrospectionEndpoint = ""
	}
	if drop&4 != 0 {
		c.spec.RevocationEndpoint = ""
	}
	kind, right := "", true
	c.after = func(r *http.Request, w *vfRec) {
		if kind == "" && vfBool("here") {
			kind, right = vfDeviate(test, c.spec, r, w)
		}
	}
	ok := c.run(vfSuiteTest(test))
	if kind == "" {
		return
	}
	vfNote("kind", kind)
	vfAssert(right || !ok, "P31.deviation-noticed "+kind)
	vfAssert(!right || ok, "P31.right-answer-passes "+kind)
	if right {
		vfReach("still-right")
	} else {
		vfReach(strings.Replace(kind, " ", "-", 1))
	}
}

// vfDefect makes the server fail to enforce something and says whether the
// suite has to notice under the declared features.
func vfDefect(c *vfConf, d int) bool {
	p := c.spec
	s := c.s
	pw, cc, im, co, re := p.PasswordGrantSupport, p.ClientCredentialsGrantSupport, p.ImplicitGrantSupport, p.AuthorizationCodeGrantSupport, p.RefreshTokenGrantSupport
	intro, revo := p.IntrospectionEndpoint != "", p.RevocationEndpoint != ""
	front := im || co
	back := pw || cc || co || re
	far := time.Now().Add(time.Hour)
	valid, unknown := "Bearer "+vfTok(101).String(), vfTok(107).String()
	token, authorize := "/oauth2/token", "/oauth2/authorize"
	req := func(f func(r *http.Request)) { c.before = f }
	ans := func(f func(r *http.Request, w *vfRec)) { c.after = f }
	api := func(r *http.Request) bool { return r.URL.Path == "/api/protected" }
	is := func(r *http.Request, path, k, v string) bool { return r.URL.Path == path && r.PostForm.Get(k) == v }
	grant := func(r *http.Request, g string) bool { return is(r, token, "grant_type", g) }
	full := Scope{"foo", "bar"}
	setAuth := func(r *http.Request, u, p string) { r.SetBasicAuth(u, p) }
	kept := map[string]*ServerCredential{}
	keep := func(m map[string]*ServerCredential) {
		for k, v := range m {
			kept[k] = v
		}
	}
	back2 := func(m map[string]*ServerCredential) {
		for k, v := range kept {
			m[k] = v
		}
	}
	switch d {
	case 0: // expired access token accepted
		s.AccessTokens[vfTok(102).SignatureString()].ExpiresAt = far
		return true
	case 1: // unknown access token accepted
		vfCred(s.AccessTokens, vfTok(107), ServerCredential{ClientID: "client1", Scope: full, ExpiresAt: far})
		return true
	case 2: // scope of a token ignored
		s.AccessTokens[vfTok(103).SignatureString()].Scope = full
		return true
	case 3: // malformed token accepted
		req(func(r *http.Request) {
			if api(r) && r.Header.Get("Authorization") == "Bearer invalid" {
				r.Header.Set("Authorization", valid)
			}
		})
		return true
	case 4: // malformed header accepted
		req(func(r *http.Request) {
			if api(r) && r.Header.Get("Authorization") == "invalid" {
				r.Header.Set("Authorization", valid)
			}
		})
		return true
	case 5: // resource open to everyone
		req(func(r *http.Request) {
			if api(r) && r.Header.Get("Authorization") == "" {
				r.Header.Set("Authorization", valid)
			}
		})
		return true
	case 6, 7, 8, 9, 10, 11: // client secret not checked, per grant or endpoint
		g := []string{"password", "client_credentials", "authorization_code", "refresh_token", "/oauth2/introspect", "/oauth2/revoke"}[d-6]
		req(func(r *http.Request) {
			if u, _, _ := r.BasicAuth(); u == "client1" && (grant(r, g) || r.URL.Path == g) {
				setAuth(r, "client1", "sec1")
			}
		})
		return []bool{pw, cc, co, re, intro, revo}[d-6]
	case 12, 13, 14: // unknown client accepted, per endpoint
		g := []string{token, "/oauth2/introspect", "/oauth2/revoke"}[d-12]
		req(func(r *http.Request) {
			if u, _, _ := r.BasicAuth(); u == "unknown" && r.URL.Path == g {
				setAuth(r, "client1", "sec1")
			}
		})
		return []bool{back, intro, revo}[d-12]
	case 15: // owner's password not checked
		req(func(r *http.Request) {
			if grant(r, "password") {
				r.PostForm.Set("password", "pw1")
			}
		})
		return pw
	case 16: // unknown owner accepted
		req(func(r *http.Request) {
			if is(r, token, "username", "invalid") {
				r.PostForm.Set("username", "user1")
			}
		})
		return pw
	case 17, 18, 19, 20, 21, 22, 23, 24, 25: // scope not restricted, per grant: unknown or exceeding scope
		k := (d - 17) / 2
		sc := [][2]string{{"baz", "foo"}, {"foo bar baz", "foo bar"}}[(d-17)%2]
		if d == 25 {
			sc = [2]string{"foo bar baz", "foo bar"}
		}
		req(func(r *http.Request) {
			hit := grant(r, []string{"password", "client_credentials", "", "", "refresh_token"}[k])
			hit = hit || is(r, authorize, "response_type", []string{"-", "-", "token", "code", "-"}[k])
			if hit && r.PostForm.Get("scope") == sc[0] {
				r.PostForm.Set("scope", sc[1])
			}
		})
		return []bool{pw, cc, im, co, re}[k]
	case 26: // public client may use its own credentials
		req(func(r *http.Request) {
			if u, _, _ := r.BasicAuth(); u == "client2" && grant(r, "client_credentials") {
				setAuth(r, "client1", "sec1")
			}
		})
		return cc
	case 27, 28, 29, 30: // authorization without, or with wrong owner credentials
		rt := []string{"token", "code"}[(d-27)%2]
		req(func(r *http.Request) {
			if !is(r, authorize, "response_type", rt) || r.Method != "POST" {
				return
			}
			u, p := r.PostForm.Get("username"), r.PostForm.Get("password")
			if c.headers {
				u, p = r.Header.Get("X-User"), r.Header.Get("X-Password")
			}
			if d < 29 && u == "" && p == "" || d >= 29 && p == "invalid" {
				r.PostForm.Set("username", "user1")
				r.PostForm.Set("password", "pw1")
				r.Header.Set("X-User", "user1")
				r.Header.Set("X-Password", "pw1")
			}
		})
		return []bool{im, co}[(d-27)%2]
	case 31, 32, 33: // unregistered redirect URI, unknown client or response type
		k := []string{"redirect_uri", "client_id", "response_type"}[d-31]
		bad := []string{"http://invalid.com", "invalid", "invalid"}[d-31]
		good := []string{"http://example.com/cb1", "client1", "code"}[d-31]
		req(func(r *http.Request) {
			if is(r, authorize, k, bad) {
				r.PostForm.Set(k, good)
			}
		})
		return front
	case 34: // no authorization page
		ans(func(r *http.Request, w *vfRec) {
			if r.URL.Path == authorize && r.Method == "GET" {
				w.codes[0] = 404
			}
		})
		return front
	case 35: // redirect URI of a code not checked
		req(func(r *http.Request) {
			if grant(r, "authorization_code") {
				r.PostForm.Set("redirect_uri", "http://example.com/cb1")
			}
		})
		return co
	case 36: // client of a code not checked
		req(func(r *http.Request) {
			if u, _, _ := r.BasicAuth(); u == "client2" && grant(r, "authorization_code") {
				setAuth(r, "client1", "sec1")
			}
		})
		return co
	case 37: // expired code accepted
		k := s.AuthorizationCodes[vfTok(106).SignatureString()]
		k.ExpiresAt, k.RedirectURI = far, "http://example.com/cb1"
		return co
	case 38: // unknown code accepted
		vfCred(s.AuthorizationCodes, vfTok(109), ServerCredential{ClientID: "client1", Username: "user1", Scope: full, ExpiresAt: far, RedirectURI: "http://example.com/cb1"})
		return co
	case 39: // code works again
		req(func(r *http.Request) {
			for _, k := range s.AuthorizationCodes {
				k.Used = false
			}
		})
		return co
	case 40, 41: // a replayed code leaves its access or refresh token
		m := []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens}[d-40]
		req(func(r *http.Request) {
			kept = map[string]*ServerCredential{}
			if grant(r, "authorization_code") {
				keep(m)
			}
		})
		ans(func(r *http.Request, w *vfRec) { back2(m) })
		return co && p.CodeReplayMitigation
	case 42: // refresh token works again
		req(func(r *http.Request) {
			kept = map[string]*ServerCredential{}
			if grant(r, "refresh_token") {
				keep(s.RefreshTokens)
			}
		})
		ans(func(r *http.Request, w *vfRec) { back2(s.RefreshTokens) })
		return back
	case 43: // expired refresh token accepted
		s.RefreshTokens[vfTok(105).SignatureString()].ExpiresAt = far
		return re
	case 44: // unknown refresh token accepted
		vfCred(s.RefreshTokens, vfTok(108), ServerCredential{ClientID: "client1", Scope: full, ExpiresAt: far})
		return re
	case 45: // client of a refresh token not checked
		req(func(r *http.Request) {
			if u, _, _ := r.BasicAuth(); u == "client2" && grant(r, "refresh_token") {
				setAuth(r, "client1", "sec1")
			}
		})
		return re
	case 46, 47: // revocation without effect
		m := []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens}[d-46]
		req(func(r *http.Request) {
			kept = map[string]*ServerCredential{}
			if r.URL.Path == "/oauth2/revoke" {
				keep(m)
			}
		})
		ans(func(r *http.Request, w *vfRec) { back2(m) })
		return revo && (d == 46 || back)
	case 48, 49: // introspection calls every known token active, or none
		ans(func(r *http.Request, w *vfRec) {
			if a, ok := vfJSONBool(w.body, "active"); ok && a == (d == 49) && r.PostForm.Get("token") != unknown {
				w.body = []byte([]string{`{"active":true,"token_type":"` + r.PostForm.Get("token_type_hint") + `"}`, `{"active":false}`}[d-48])
			}
		})
		return intro && (d == 49 || revo || back)
	case 50: // introspection gives the wrong type
		ans(func(r *http.Request, w *vfRec) {
			if a, ok := vfJSONBool(w.body, "active"); ok && a {
				tt := "access_token"
				if o, _ := vfJSONStr(w.body, "token_type"); o == tt {
					tt = "refresh_token"
				}
				w.body = []byte(`{"active":true,"token_type":"` + tt + `"}`)
			}
		})
		return intro && (revo || back || im)
	case 51, 52: // unknown token type hint accepted
		g := []string{"/oauth2/introspect", "/oauth2/revoke"}[d-51]
		req(func(r *http.Request) {
			if is(r, g, "token_type_hint", "invalid") {
				r.PostForm.Del("token_type_hint")
			}
		})
		return []bool{intro, revo}[d-51]
	case 53, 54: // public client may introspect or revoke
		g := []string{"/oauth2/introspect", "/oauth2/revoke"}[d-53]
		req(func(r *http.Request) {
			if u, _, _ := r.BasicAuth(); u == "client2" && r.URL.Path == g {
				setAuth(r, "client1", "sec1")
			}
		})
		return []bool{intro, revo}[d-53]
	case 55, 56: // anybody may introspect or revoke
		g := []string{"/oauth2/introspect", "/oauth2/revoke"}[d-55]
		req(func(r *http.Request) {
			if r.Header.Get("Authorization") == "" && r.URL.Path == g && r.Method == "POST" {
				setAuth(r, "client1", "sec1")
			}
		})
		return []bool{intro, revo}[d-55]
	case 57, 58: // malformed token taken as an unknown one
		g := []string{"/oauth2/introspect", "/oauth2/revoke"}[d-57]
		req(func(r *http.Request) {
			if is(r, g, "token", "invalid") {
				r.PostForm.Set("token", unknown)
			}
		})
		return []bool{intro, revo}[d-57]
	case 59: // unknown grant type accepted
		req(func(r *http.Request) {
			if grant(r, "invalid") {
				r.PostForm.Set("grant_type", "client_credentials")
			}
		})
		return back
	case 60, 61: // issued access or refresh tokens do not work
		m := []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens}[d-60]
		old := map[string]bool{}
		for k := range m {
			old[k] = true
		}
		ans(func(r *http.Request, w *vfRec) {
			for k := range m {
				if !old[k] {
					delete(m, k)
				}
			}
		})
		return d == 60 && (back || im) || d == 61 && (pw || cc || co)
	}
	return false
}

// The whole suite fails on a server that does not enforce one of the things
// the declared features promise, and passes on it otherwise.
// bounds: 62 defects, each under every combination of 7 (thorough: 32) sets of supported grants, introspection, revocation and replay mitigation declared or not; owner credentials in parameters or headers
// reach: noticed out-of-scope
func vfH_P31_defect() {
	c := vfNewConf(vfChoice("headers", 2) == 1)
	vfFeatures(c.spec)
	must := vfDefect(c, vfChoice("defect", 62))
	after := c.after
	c.after = func(r *http.Request, w *vfRec) {
		if after != nil {
			after(r, w)
		}
		if w.h.Get("WWW-Authenticate") == "" {
			w.h.Set("WWW-Authenticate", "None x=y") // the suite may look into it
		}
	}
	ok := c.run(oauth2test.Run)
	if must {
		vfAssert(!ok, "P31.defect-noticed")
		vfReach("noticed")
	} else {
		vfAssert(ok, "P31.undeclared-not-tested")
		vfReach("out-of-scope")
	}
}

// A description that lacks something the declared features need is refused
// with a panic before the server is tested for it; a complete one is not.
// bounds: every combination of features as above; any one of 28 values missing
// reach: refused accepted
func vfH_P31_description() {
	c := vfNewConf(false)
	p := c.spec
	vfFeatures(p)
	pw, im, co, re := p.PasswordGrantSupport, p.ImplicitGrantSupport, p.AuthorizationCodeGrantSupport, p.RefreshTokenGrantSupport
	front := im || co
	need := true
	switch vfChoice("missing", 30) {
	case 0:
		p.Handler = nil
	case 1:
		p.TokenEndpoint = ""
	case 2:
		p.AuthorizeEndpoint = ""
	case 3:
		p.ProtectedResource = ""
	case 4:
		p.ConfidentialClientID = ""
	case 5:
		p.ConfidentialClientSecret = ""
	case 6:
		p.PublicClientID = ""
	case 7:
		p.InvalidScope = ""
	case 8:
		p.ValidScope = ""
	case 9:
		p.ExceedingScope = ""
	case 10:
		p.InvalidToken = ""
	case 11:
		p.ValidToken = ""
	case 12:
		p.UnknownToken = ""
	case 13:
		p.ExpiredToken = ""
	case 14:
		p.InvalidRedirectURI, need = "", front
	case 15:
		p.PrimaryRedirectURI, need = "", front
	case 16:
		p.SecondaryRedirectURI, need = "", front
	case 17:
		p.ResourceOwnerUsername, need = "", pw
	case 18:
		p.ResourceOwnerPassword, need = "", pw
	case 19:
		p.InvalidAuthorizationParams, need = nil, front
	case 20:
		p.ValidAuthorizationParams, need = nil, front
	case 21:
		p.InvalidAuthorizationCode, need = "", co
	case 22:
		p.UnknownAuthorizationCode, need = "", co
	case 23:
		p.ExpiredAuthorizationCode, need = "", co
	case 24:
		p.InvalidRefreshToken, need = "", re
	case 25:
		p.UnknownRefreshToken, need = "", re
	case 26:
		p.ValidRefreshToken, need = "", re
	case 27:
		p.ExpiredRefreshToken, need = "", re
	default:
		need = false
	}
	panicked := false
	ok := testing.RunTests(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "suite", F: func(t *testing.T) {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		oauth2test.Run(t, p)
	}}})
	vfAssert(panicked == need, "P31.incomplete-description-refused")
	vfAssert(need || ok, "P31.complete-description-accepted")
	if need {
		vfReach("refused")
	} else {
		vfReach("accepted")
	}
}

// Do sends exactly the described request and hands back the answer it got.
// bounds: method and path of a few kinds; header value, user name, password and two form values of at most 3 (thorough: 4) arbitrary bytes each; status 200-599, body of at most 2 bytes
// reach: plain basic
func vfH_P31_do() {
	n := 3
	if vfThorough() {
		n = 4
	}
	method := []string{"GET", "POST", "PUT"}[vfChoice("method", 3)]
	path := []string{"/a", "/oauth2/token", "/a/b?x=1", "/%41"}[vfChoice("path", 4)]
	var user, pass, hdr, v1, v2 string
	which := vfChoice("which", 3)
	switch which {
	case 0:
		user, pass = vfString("user", 0, n), vfString("pass", 0, n)
		for i := 0; i < len(user); i++ {
			vfAssume(user[i] != ':')
		}
	case 1:
		hdr = vfString("hdr", 0, n)
	case 2:
		v1, v2 = vfString("v1", 0, n), vfString("v2", 0, n)
	}
	status := vfInt("status", 200, 599)
	body := vfString("body", 0, 2)
	calls, backs := 0, 0
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		calls++
		vfFormOf(r)
		want, _ := http.NewRequest(method, path, nil)
		vfAssert(r.Method == method && r.URL.String() == want.URL.String(), "P31.request-line-sent")
		u, p, ok := r.BasicAuth()
		if user != "" {
			vfAssert(ok && u == user && p == pass, "P31.credentials-sent")
		} else {
			vfAssert(!ok, "P31.no-credentials-invented")
		}
		vfAssert(r.Header.Get("X-Some") == hdr, "P31.header-sent")
		vfAssert(len(r.PostForm) == 2 && len(r.PostForm["a"]) == 1 && r.PostForm["a"][0] == v1, "P31.form-sent")
		vfAssert(len(r.PostForm["b c"]) == 1 && r.PostForm["b c"][0] == v2, "P31.form-sent")
		w.Header().Set("X-Back", "y")
		w.WriteHeader(status)
		_, _ = w.Write([]byte(body))
	})
	oauth2test.Do(h, &oauth2test.Request{Method: method, Path: path, Header: map[string]string{"X-Some": hdr},
		Form: map[string]string{"a": v1, "b c": v2}, Username: user, Password: pass,
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			backs++
			vfAssert(calls == 1, "P31.handled-once")
			vfAssert(r.Code == status && r.Body.String() == body && r.Header().Get("X-Back") == "y", "P31.answer-handed-back")
			vfAssert(rq != nil && rq.Method == method, "P31.request-handed-back")
		}})
	vfAssert(backs == 1, "P31.called-back-once")
	if which == 0 && user != "" {
		vfReach("basic")
	} else {
		vfReach("plain")
	}
}
