package oauth2

// The known grant, response and token types are exactly those of the
// specification, byte for byte.
// bounds: strings of 0-6 (thorough: 0-8) arbitrary bytes, and every known name with one arbitrary byte replaced, inserted or removed, and all strings of the known lengths
// reach: known unknown
func vfH_P29_known() {
	n := 6
	if vfThorough() {
		n = 8
	}
	names := []string{"password", "client_credentials", "authorization_code", "refresh_token", "token", "code", "access_token"}
	s := ""
	switch vfChoice("kind", 5) {
	case 0:
		s = vfString("s", 0, n)
	case 1:
		b := []byte(names[vfChoice("name", len(names))])
		i := vfChoice("pos", 18)
		vfAssume(i < len(b))
		b[i] = vfByte("c")
		s = string(b)
	case 2:
		b := names[vfChoice("name", len(names))]
		i := vfChoice("pos", 19)
		vfAssume(i <= len(b))
		s = b[:i] + string([]byte{vfByte("c")}) + b[i:]
	case 3:
		b := names[vfChoice("name", len(names))]
		i := vfChoice("pos", 18)
		vfAssume(i < len(b))
		s = b[:i] + b[i+1:]
	case 4:
		k := []int{4, 5, 8, 12, 13, 18}[vfChoice("len", 6)]
		s = vfString("s", k, k)
	}
	g := s == "password" || s == "client_credentials" || s == "authorization_code" || s == "refresh_token"
	r := s == "token" || s == "code"
	t := s == "access_token" || s == "refresh_token"
	vfAssert(KnownGrantType(s) == g, "P29.grant")
	vfAssert(KnownResponseType(s) == r, "P29.response")
	vfAssert(KnownTokenType(s) == t, "P29.token")
	if g || r || t {
		vfReach("known")
	} else {
		vfReach("unknown")
	}
}

// Each error constructor yields its own name and status and the given
// description, nothing else, and fresh each time; printing an error shows
// both.
// bounds: all 13 constructors; description of 0-3 (thorough: 0-5) arbitrary bytes
// reach: error
func vfH_P29_errors() {
	n := 3
	if vfThorough() {
		n = 5
	}
	d := vfString("d", 0, n)
	type row struct {
		f      func(string) *Error
		name   string
		status int
	}
	rows := []row{
		{InvalidRequest, "invalid_request", 400}, {InvalidClient, "invalid_client", 401}, {InvalidGrant, "invalid_grant", 400},
		{InvalidScope, "invalid_scope", 400}, {InvalidToken, "invalid_token", 401}, {UnauthorizedClient, "unauthorized_client", 400},
		{UnsupportedGrantType, "unsupported_grant_type", 400}, {UnsupportedResponseType, "unsupported_response_type", 400},
		{UnsupportedTokenType, "unsupported_token_type", 400}, {AccessDenied, "access_denied", 403}, {ServerError, "server_error", 500},
		{TemporarilyUnavailable, "temporarily_unavailable", 503},
		{func(string) *Error { return ProtectedResource() }, "", 401},
		{func(s string) *Error { return InsufficientScope(Scope{"x", s}) }, "insufficient_scope", 403},
	}
	k := vfChoice("ctor", len(rows))
	e := rows[k].f(d)
	vfAssert(e.Name == rows[k].name, "P29.name")
	vfAssert(e.Status == rows[k].status, "P29.status")
	if k < 12 {
		vfAssert(e.Description == d, "P29.description")
		vfAssert(len(e.Scope) == 0, "P29.no-scope")
	} else {
		vfAssert(e.Description == "", "P29.no-description")
	}
	if k == 13 {
		vfAssert(vfScopeEq(e.Scope, Scope{"x", d}), "P29.scope")
	}
	vfAssert(e.URI == "" && e.Realm == "" && e.State == "" && e.RedirectURI == "" && !e.UseFragment, "P29.nothing-else")
	vfAssert(e.Error() == e.Name+": "+e.Description && e.String() == e.Error(), "P29.print")
	if k == 1 {
		vfAssert(len(e.Headers) == 1 && e.Headers["WWW-Authenticate"] == `Basic realm="OAuth2"`, "P29.challenge")
	} else {
		vfAssert(len(e.Headers) == 0, "P29.no-headers")
	}
	// fresh: changing one does not show in the next
	if e.Headers != nil {
		e.Headers["WWW-Authenticate"] = "changed"
	}
	e.Name, e.Description, e.Status = "changed", "changed", 1
	e.SetRedirect("http://r/", "s", true)
	e2 := rows[k].f(d)
	vfAssert(e2.Name == rows[k].name && e2.Status == rows[k].status && e2.RedirectURI == "" && e2.State == "" && !e2.UseFragment, "P29.fresh")
	if k == 1 {
		vfAssert(e2.Headers["WWW-Authenticate"] == `Basic realm="OAuth2"`, "P29.fresh-headers")
	}
	vfReach("error")
}
