#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

I, H, C, S, F = "inputs", "histories", "configurations", "schedules", "fault_sequences"

P = []


def p(id, title, statement, over, text, why, files, mech, observe, level_note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  note=level_note))


p("P01", "A resource opens only to a live access token with the required scope",
  "A request to a protected resource is authorized exactly when it presents, as a bearer token, an access token of this server that is stored, unexpired and whose scope includes the required scope. Every other request - unknown, expired, revoked, tampered, malformed or foreign token, refresh token or authorization code instead of an access token, too little scope, no header - is refused with exactly one bearer challenge of the matching status. Neither outcome changes any stored credential.",
  [I, C], "all header bytes and token mutations, all expiry instants, stored and required scopes, and credential kinds, within the bounds listed in the evidence",
  "The tests authorize with one valid token and a handful of broken ones; they cannot rule out another header, expiry instant (to the nanosecond) or scope combination that slips through.",
  ["server.go", "bearer.go", "hs256.go", "scope.go"],
  [("resource guard", "server.go Authorize"), ("token parsing", "hs256.go ParseHS256Token"), ("scope inclusion", "scope.go Includes")],
  ["return value, status and WWW-Authenticate header of a guarded request", "the server's stored credentials"],
  "All paths of the guard, the bearer parser, the token parser and scope inclusion are executed symbolically for one request on a symbolic world.")
p("P02", "Only a token with its full MAC under the server's secret is genuine",
  "A token string is accepted exactly when it decodes to a key and the complete HMAC-SHA256 of that key under the given secret, and the parsed token is the presented one. Any flipped bit, truncation, extension, extra segment, foreign key or foreign secret is refused with an error and without a panic. Checking a signature answers by the same rule.",
  [I], "all secrets, keys, signatures and strings within the bounds listed in the evidence; MAC idealised as collision-free on symbolic data",
  "The tests mutate a token in a few fixed ways; a comparison that looks at a prefix, ignores the length, or accepts an empty MAC passes them.",
  ["hs256.go"],
  [("signature comparison", "hs256.go Valid, Equal"), ("token parsing", "hs256.go ParseHS256Token"), ("derivation", "hs256.go HS256TokenFromKey")],
  ["result of parsing and of the validity checks"],
  "HMAC is concrete on concrete data and an uninterpreted collision-free function on symbolic data; base64 is encoded from the standard library's source.")
p("P03", "Tokens are drawn completely from the random source or not at all",
  "A generated token's key is exactly the requested number of bytes (16 by default) from the random source, in order and however the source splits its reads, and printing and parsing it under its secret returns the same token; different keys give different token strings. When the random source fails before the key is complete no token is returned: generation reports an error, the must-variant panics. A server operation that hits such a failure leaves the server unlocked, usable and without a new usable credential from that attempt.",
  [I, F], "all random bytes, key lengths, read splits and failure points within the bounds listed in the evidence",
  "The tests run with a working random source only and look at one or two tokens; short reads, truncated entropy and failures mid-key are never exercised.",
  ["hs256.go", "server.go"],
  [("generation", "hs256.go GenerateHS256Token, MustGenerateHS256Token"), ("issuing", "server.go issueTokens, MustGenerate")],
  ["returned token and error", "server state after a failing random source"],
  "The random source is replaced by a symbolic one that can fail at any byte.")
p("P04", "Back-channel endpoints serve only authenticated registered clients",
  "The token, introspection and revocation endpoints serve a request only if it names a registered client and, for a confidential client, presents that client's exact secret in the place the protocol provides (Basic header, or the request body at the token endpoint). Every other request is refused with invalid_client or invalid_request, changes nothing and reveals nothing. Whatever is issued belongs to the authenticated client, whatever else the request names.",
  [I, C], "all client ids, stored and presented secrets (0-6 bytes and selected longer ones), placements and operations within the bounds listed in the evidence",
  "The tests use one right and one wrong secret; they do not cover prefixes, empty secrets, secrets of another client, bodies contradicting the header, or malformed headers.",
  ["server.go", "token.go", "introspection.go", "revocation.go"],
  [("client authentication", "server.go tokenEndpoint, introspectionEndpoint, revocationEndpoint"), ("credential extraction", "token.go ParseTokenRequest, introspection.go ParseIntrospectionRequest, revocation.go ParseRevocationRequest")],
  ["HTTP response", "stored credentials"],
  "Requests run through the server's HTTP handler symbolically against a symbolic client table.")
p("P05", "Owner grants need the registered user's exact password in the POST body",
  "The password, implicit and authorization code grants issue a credential only when the POST body carries a registered user's name and exactly that user's password, and the credential then belongs to that user. Credentials in the query string, in the Authorization header or split between places authenticate nobody. Requesting the authorization endpoint with any other method issues nothing, even with valid credentials.",
  [I], "all user names, passwords, placements and methods within the bounds listed in the evidence",
  "The tests use one user with one right and one wrong password; prefixes, other users' passwords, query placement and unusual methods are not covered.",
  ["server.go", "authorization.go", "token.go"],
  [("owner check", "server.go handleResourceOwnerPasswordCredentialsGrant, handleImplicitGrant, handleAuthorizationCodeGrantAuthorization"), ("body-only parameters", "server.go authorizationEndpoint")],
  ["HTTP response", "stored credentials"],
  "Requests run through the server's HTTP handler symbolically against a symbolic user table.")
p("P06", "No grant ever carries more scope than allowed, approved or inherited",
  "Password, client credentials, implicit and code grants succeed only if every requested scope item is allowed by the server, and grant exactly the requested scope, otherwise they answer invalid_scope. Redeeming a code grants exactly the scope approved at authorization, and a refresh grants the refresh token's scope or a requested subset of it, so that over any chain of refreshes scope never grows. The scope enforced on use is the scope granted.",
  [I, H, C], "all allowed and requested scopes within the bounds listed in the evidence; chains of two refreshes",
  "The tests request one allowed and one disallowed scope; subsets, duplicates, separators, and regaining dropped items through refreshes are not covered.",
  ["server.go", "scope.go"],
  [("scope checks", "server.go handle*Grant"), ("inclusion", "scope.go Includes, ParseScope")],
  ["scope in the response", "scope of the stored credentials", "resource guard"],
  "Full symbolic execution of every grant with symbolic scopes.")
p("P07", "A code pays out once, to its client, with its redirect URI, in time",
  "An authorization code is exchanged for tokens exactly when it is stored, unused, unexpired and presented by the client it was issued to together with the redirect URI it was requested with. The tokens carry the code's user, client and scope, and the code is then spent. Any other attempt is refused with invalid_grant (or invalid_request if malformed) and neither issues anything nor spends the code.",
  [I, H], "all code attributes, expiry instants and presented values within the bounds listed in the evidence; up to one failing attempt before the right one",
  "The tests redeem one code correctly and once more; expiry boundaries, near-miss redirect URIs, other clients and failed attempts before the right one are not covered.",
  ["server.go", "hs256.go"],
  [("code redemption", "server.go handleAuthorizationCodeGrant"), ("code issue", "server.go handleAuthorizationCodeGrantAuthorization")],
  ["HTTP response of the token endpoint", "stored credentials"],
  "Full symbolic execution of the token endpoint on a symbolic stored code.")
p("P08", "Replaying a code disables every token that descends from it",
  "Presenting an already redeemed authorization code again is refused, whoever presents it, and at once disables every access and refresh token that descends from that code, through however many refreshes, narrowing refreshes or other operations in between. Tokens that descend from other authorizations or grants stay as they were. Further replays stay refused.",
  [H, I], "all histories of a redemption, up to 3 (thorough: 4) intermediate steps out of 7 kinds and a replay by any client, with symbolic clock advances",
  "The tests replay a code directly after its redemption; descendants through refreshes and unrelated tokens in between are not covered.",
  ["server.go"],
  [("replay handling", "server.go handleAuthorizationCodeGrant"), ("lineage of tokens", "server.go issueTokens, handleRefreshTokenGrant")],
  ["resource guard, token and introspection endpoint for every token of the history"],
  "Histories are enumerated by the symbolic executor, with clock advances symbolic.")
p("P09", "A refresh token works once, for its client, in time, and is replaced",
  "A refresh succeeds exactly when the presented token is a stored, unexpired refresh token of the authenticated client and the requested scope is within its scope. Success issues a new access and refresh token for the same user, client and authorization and retires exactly the presented token; a refused refresh is answered with an error and changes nothing. In any sequence of refreshes each token works at most once and the newest keeps working within its lifetime.",
  [I, H], "all stored attributes, expiry instants and presented credentials within the bounds listed in the evidence; sequences of 3 (thorough: 4) steps",
  "The tests refresh once with a valid token; other clients' tokens, expiry instants, access tokens presented as refresh tokens and reuse after rotation are not covered.",
  ["server.go"],
  [("refresh", "server.go handleRefreshTokenGrant"), ("rotation", "server.go issueTokens")],
  ["HTTP response of the token endpoint", "stored credentials"],
  "Full symbolic execution of the token endpoint on a symbolic stored refresh token, and of step sequences.")
p("P10", "Credentials live exactly as long as configured for their kind",
  "Every issued access token, refresh token and authorization code expires exactly its own kind's configured lifespan after issue (by default one hour, seven days and ten minutes), and responses announce the access token's lifespan in whole seconds. A credential works up to that instant and never after it, at every place where it can be presented. Using a credential never extends its life.",
  [I, C, H], "all lifespans and elapsed times within the bounds listed in the evidence, with sub-second parts",
  "The tests do not control the clock and use one configuration in which several lifespans look alike; boundaries and mixed-up kinds are not covered.",
  ["server.go", "token.go", "bearer.go"],
  [("issuing", "server.go issueTokens, handleAuthorizationCodeGrantAuthorization"), ("expiry checks", "server.go Authorize, handleAuthorizationCodeGrant, handleRefreshTokenGrant, introspectionEndpoint")],
  ["expires_in of responses, exp of introspection, behaviour after symbolic time has passed"],
  "The clock is symbolic (virtual time); time arithmetic is encoded from the standard library's source.")
p("P11", "Front-channel responses carry their flow's parameters where they belong",
  "An implicit grant redirects with token_type, access_token, expires_in, scope and state in the fragment and never with a refresh token; an authorization code grant redirects with only code and state in the query. Errors of either flow are reported in that flow's component with the error and the state, and carry no credential. The state comes back byte for byte, and only if it was given, and the redirect URI's own query survives.",
  [I], "all states of up to 3 bytes and selected longer ones, scopes, redirect URIs with and without query, both flows, within the bounds listed in the evidence",
  "The tests follow one redirect per flow with a plain state; special bytes in the state, redirect URIs with an own query, and parameters that should be absent are not covered.",
  ["server.go", "token.go", "code.go", "error.go", "oauth2.go"],
  [("responses", "server.go handleImplicitGrant, handleAuthorizationCodeGrantAuthorization"), ("redirects", "oauth2.go WriteRedirect"), ("parameters", "token.go Map, code.go Map, error.go Map")],
  ["Location header of the authorization endpoint"],
  "Requests run through the server's HTTP handler; the Location header is decoded by an independent decoder.")
p("P12", "The user agent is only ever sent to the client's registered redirect URI",
  "The authorization endpoint redirects only to the redirect URI registered for the named client, compared exactly and in full after decoding exactly once. In every other case - unknown client, different or missing redirect URI, undecodable one - the answer is an error at the server itself without a Location header. The token, introspection and revocation endpoints and the resource guard never redirect.",
  [I, C], "all client ids, registered and presented redirect URIs within the bounds listed in the evidence",
  "The tests try one wrong redirect URI; prefixes, case variants, double encoding, empty registrations and error paths that redirect are not covered.",
  ["server.go", "authorization.go", "oauth2.go"],
  [("redirect URI comparison", "server.go authorizationEndpoint"), ("decoding and validation", "authorization.go ParseAuthorizationRequest")],
  ["Location header and status of every response"],
  "Registered and presented redirect URIs are symbolic strings.")
p("P13", "Revocation kills exactly the presented token, for its own client only",
  "Revoking removes exactly the presented access or refresh token, only when asked by the client it was issued to, and the removed token never works again anywhere. The token type hint never changes what is revoked, except that an unsupported hint is refused; an unknown or already revoked token is acknowledged without effect. Every other credential stays as it was.",
  [I, H], "all presented tokens, hints and stored attributes within the bounds listed in the evidence; histories of 2 (thorough: 3) steps",
  "The tests revoke one access and one refresh token; foreign clients, wrong hints, tokens sharing attributes and later use through other endpoints are not covered.",
  ["server.go", "revocation.go"],
  [("revocation", "server.go revocationEndpoint, revokeToken")],
  ["HTTP response", "stored credentials", "later use of every token"],
  "Full symbolic execution of the revocation endpoint, and of step sequences followed by a probe of every token.")
p("P14", "Introspection tells the truth about tokens, and only to their client",
  "Introspection reports a token active exactly when it is a stored, unexpired access or refresh token of the asking client, with that token's own client, user, scope, type and expiry. An inactive answer carries nothing else, a token of another client is refused, an unsupported hint is refused and a supported one does not change the answer. Introspection never changes anything and agrees with the token's real state after any history.",
  [I, H], "all presented tokens, hints, stored attributes and expiry instants within the bounds listed in the evidence; histories of 3 (thorough: 4) steps",
  "The tests introspect fresh tokens only; expired tokens (reported active before the fix recorded here), foreign tokens and state after refresh, revocation or replay are not covered.",
  ["server.go", "introspection.go"],
  [("introspection", "server.go introspectionEndpoint")],
  ["HTTP response of the introspection endpoint", "stored credentials"],
  "Full symbolic execution of the introspection endpoint, and of step sequences followed by a probe of every credential.")
p("P15", "A refused request changes nothing; a served one only what it defines",
  "A request that is refused leaves every stored credential, client, user and configuration value as it was, and the same request made correctly afterwards is still served. A request that is served changes only what its operation defines: it adds the credentials it issues, and removes or marks only the one it consumes or revokes. Clients, users and configuration are never changed by any request.",
  [I, H], "9 operations with one of 17 request attributes replaced by arbitrary bytes or removed, within the bounds listed in the evidence",
  "The tests never compare the server's state before and after a refused request.",
  ["server.go"],
  [("order of checks and effects", "server.go handle*Grant, revocationEndpoint, introspectionEndpoint")],
  ["complete snapshot of the server's state before and after", "outcome of the corrected request"],
  "The complete server state is compared before and after, symbolically.")
p("P16", "Concurrent requests behave as if run one after the other",
  "Any two requests handled at the same time have the effect of running them in one order or the other, with no unsynchronised access to shared state and no deadlock. In particular a code or refresh token presented twice at the same time pays out once, and a code replay or revocation racing with a refresh leaves no usable descendant. The server stays usable afterwards.",
  [S], "every pair and every triple of 13 operations (token, code and implicit grants, refresh, introspection, revocation, replay, use of a resource) and pairs with failing requests, switching threads at any synchronisation point with 2 (thorough: 3) pre-emptions; happens-before order of all accesses",
  "The tests are sequential and are not run under a scheduler that explores interleavings.",
  ["server.go", "hs256.go"],
  [("mutual exclusion", "server.go Server.Mutex in Authorize and ServeHTTP")],
  ["responses and final state of two racing requests", "race detector on replay"],
  "Schedules are decisions of the path at every synchronisation operation; unsynchronised accesses are decided by vector clocks over all accesses of every path, deadlocks by the scheduler.")
p("P17", "Requests are routed exactly, answered once, and never break the server",
  "The endpoint is chosen by the last path segment alone - authorize, token, introspect, revoke - and every other path is answered with 404. Whatever method, query, body, headers, body or connection failure a request has, it gets exactly one response, a malformed request gets a client error with an OAuth2 error document, and nothing panics. The server stays unlocked and usable afterwards.",
  [I, F], "all paths, queries and bodies within the bounds listed in the evidence",
  "The tests send well-formed requests to exact paths.",
  ["server.go", "token.go", "authorization.go", "introspection.go", "revocation.go"],
  [("routing", "server.go ServeHTTP"), ("parsers", "token.go, authorization.go, introspection.go, revocation.go Parse*Request")],
  ["number of WriteHeader calls, status, body, panics, lock state"],
  "net/http's form parsing and net/url are encoded from source.")
p("P18", "Request parsers accept exactly well-formed requests, fields intact",
  "The token, introspection and revocation parsers accept only POST and take every parameter only from the body and client credentials only from the Basic header (the token parser also from the body, without a header); the authorization parser accepts only GET and POST. A request is accepted exactly when its query and body are well-formed and completely readable and its required fields are present, and every field is returned byte for byte as sent. Every refusal is an invalid_request or invalid_client error.",
  [I], "all methods and field values, placements and header presence within the bounds listed in the evidence",
  "The tests parse a few plain requests; query leakage, special bytes, long values, odd methods and placements are not covered.",
  ["token.go", "authorization.go", "introspection.go", "revocation.go"],
  [("parsers", "token.go ParseTokenRequest, authorization.go ParseAuthorizationRequest, introspection.go ParseIntrospectionRequest, revocation.go ParseRevocationRequest")],
  ["returned request and error"],
  "Parsers run symbolically from http.Request on, including net/http form parsing from source.")
p("P19", "Only absolute redirect URIs or paths without a fragment are accepted",
  "A redirect URI in an authorization or token request is accepted only if it percent-decodes to an absolute URI or absolute path without fragment and without control characters, and it is returned exactly as decoded. A missing one is refused by the authorization parser and accepted by the token parser. Every refusal is an invalid_request error, and every ordinary absolute URI is accepted unchanged.",
  [I], "all redirect URIs within the bounds listed in the evidence",
  "The tests try one valid and one invalid URI; fragments (accepted before the fix recorded here), relative references, control bytes and encodings are not covered.",
  ["authorization.go", "token.go", "oauth2.go"],
  [("validation", "authorization.go ParseAuthorizationRequest, token.go ParseTokenRequest")],
  ["returned redirect URI and error"],
  "net/url's parser is encoded from source; arbitrary bytes are symbolic.")
p("P20", "Redirects carry their parameters byte for byte to the given target",
  "A redirect goes to the given target with status 303 See Other and carries its parameters byte for byte, in the query or in the fragment as asked, whatever bytes they contain, and keeps the target's own well-formed query parameters. Token responses, code responses and errors that redirect do so with their own parameters in their own component. A target that is no absolute URI or path is refused with an error and nothing is written.",
  [I], "all parameter names and values and targets within the bounds listed in the evidence",
  "The tests look at two redirects with plain values; special bytes (double-encoded in fragments before the fix recorded here), own queries and unusable targets are not covered.",
  ["oauth2.go", "token.go", "code.go", "error.go"],
  [("redirect", "oauth2.go WriteRedirect"), ("parameters", "token.go, code.go, error.go Map")],
  ["Location header, status, error"],
  "The Location header is decoded by an independent decoder and compared with the symbolic parameters.")
p("P21", "Error documents say exactly what the error says",
  "Writing an error produces its status, its extra headers and a JSON document with exactly its name, description, URI, scope, state and realm, each only when set, marked as JSON that must not be cached. Any other kind of error is answered with a bare 500 server_error that reveals nothing of it. An error with a redirect target is reported there instead, in the component asked for, with the same fields.",
  [I], "all field contents, statuses and header sets within the bounds listed in the evidence",
  "The tests write one error; combinations of fields, statuses, headers, special bytes and foreign errors are not covered.",
  ["error.go", "oauth2.go"],
  [("writing", "error.go WriteError, Map"), ("serialisation", "oauth2.go Write")],
  ["status, headers and body of the response"],
  "JSON encoding is modelled structurally (intrinsic); documents are decoded independently.")
p("P22", "Refused resource requests get an exact bearer challenge",
  "Writing a bearer error answers with its status, an empty body and one WWW-Authenticate challenge that carries exactly its non-empty fields, each once, or a realm if there are none. Internal errors and errors of other kinds are answered with an empty 500 that reveals nothing. The resource guard answers a missing header with 401 and no error, a malformed header with 400 invalid_request, a bad token with 401 invalid_token and missing scope with 403 insufficient_scope naming the required scope.",
  [I], "all field contents (quoted-string characters) and statuses within the bounds listed in the evidence",
  "The tests compare three fixed challenges.",
  ["bearer.go", "error.go", "server.go"],
  [("challenge", "bearer.go WriteBearerError, error.go Params"), ("guard", "server.go Authorize")],
  ["status, WWW-Authenticate header and body"],
  "Challenges are parsed back by an independent parser.")
p("P23", "Bearer tokens are read from the header exactly",
  "A bearer token is taken from a request exactly when its first Authorization header is the scheme Bearer in any letter case, one space and a non-empty rest; the rest is returned byte for byte. An absent or empty header asks for authentication, any other header is an invalid request. Parameters in the query or body and further headers never matter.",
  [I], "all headers of up to 9 (thorough: 12) arbitrary bytes, and mutations of well-formed ones",
  "The tests use one good and two bad headers.",
  ["bearer.go"],
  [("parsing", "bearer.go ParseBearerToken")],
  ["returned token and error"],
  "The whole header is symbolic; strings functions are encoded from source.")
p("P24", "Scopes behave as sets of space-separated items",
  "Parsing a scope yields its space-separated items in order without empty ones, printing joins them with single spaces, and parsing the printed form yields the scope again. Containment is membership and inclusion is the subset relation on items, byte for byte, irrespective of order and repetition. As JSON a scope is the string of its printed form, and any other JSON value is refused and leaves the scope unchanged.",
  [I], "all scope strings and lists of items within the bounds listed in the evidence",
  "The tests check a few literal scopes.",
  ["scope.go"],
  [("parsing and printing", "scope.go ParseScope, String"), ("algebra", "scope.go Contains, Includes"), ("JSON", "scope.go MarshalJSON, UnmarshalJSON")],
  ["results of parsing, printing, containment, inclusion, JSON"],
  "Strings and items are symbolic; an independent splitter is the oracle.")
p("P25", "Built requests are parsed back unchanged by the server side",
  "A token, introspection or revocation request built for an endpoint and read by the corresponding server-side parser yields the same fields, byte for byte. The form values hold exactly the given fields, once each, and changing one returned value never affects another. Client credentials travel only in the Authorization header, never in URL or body.",
  [I], "all field contents within the bounds listed in the evidence; client ids without colon",
  "The tests build one request each with plain values.",
  ["token.go", "introspection.go", "revocation.go", "authorization.go"],
  [("building", "token.go BuildTokenRequest, TokenRequestValues; introspection.go, revocation.go likewise"), ("parsing", "token.go ParseTokenRequest and siblings")],
  ["parsed request compared with the given one", "form values"],
  "http.NewRequest, form encoding and Basic credentials are encoded from source.")
p("P26", "Responses survive the way to the client; anything else is refused",
  "A token or introspection response written by the server is read back by the client with every field as it was, extra members included; an active introspection response with an unknown token type is refused when writing, and a document that cannot be delivered is reported. Responses are only accepted as JSON objects with a JSON content type, completely delivered, and never read further than the given limit. An error document comes back as that error with the response's status, anything else as a plain error naming the status line.",
  [I, F], "all field contents, content types, limits and body failures within the bounds listed in the evidence",
  "The tests parse one response of each kind.",
  ["token.go", "introspection.go", "error.go", "oauth2.go"],
  [("writing", "token.go WriteTokenResponse, introspection.go WriteIntrospectionResponse"), ("reading", "token.go ParseTokenResponse, introspection.go ParseIntrospectionResponse, error.go ParseRequestError")],
  ["parsed response and error", "bytes read from the body"],
  "JSON encoding and decoding are modelled structurally (intrinsic); content types and limits from source.")
p("P27", "A client call succeeds exactly on a 200 with an acceptable document",
  "A client call returns the server's response exactly when the server answers 200 with an acceptable document (any body for revocation); any other status is an error carrying that status and the server's error if it sent one. Transport failures are passed on. Exactly one request is sent, to the configured endpoint (none and an error if that is no URL), and the response body is always closed and read no further than the configured limit (2048 bytes by default), within which a document is accepted.",
  [I, C, F], "all statuses 200-599 but redirects, bodies, limits and failures within the bounds listed in the evidence",
  "The tests call a well-behaved server; unexpected statuses, failing bodies and limits are not covered.",
  ["client.go", "token.go", "introspection.go", "error.go"],
  [("calls", "client.go Authenticate, Introspect, Revoke")],
  ["returned response and error", "transport: requests sent, body closed, bytes read"],
  "http.Client is encoded from source over a modelled transport.")
p("P28", "Sensitive answers forbid caching and state their type",
  "Every answer of an endpoint that carries a credential, a token's state or a protocol error forbids caching and, if it has a body, declares it as JSON. Redirects hide the referrer. Back-channel endpoints answer with such documents and nothing else.",
  [I], "9 operations with one of 17 request attributes replaced by arbitrary bytes or removed, within the bounds listed in the evidence",
  "The tests look at headers of a few successful answers.",
  ["oauth2.go", "error.go", "server.go"],
  [("writing", "oauth2.go Write, WriteRedirect")],
  ["response headers"],
  "All responses of the server on varied requests are inspected symbolically.")
p("P29", "Known types and error constructors are exactly the specification's",
  "A string is a known grant, response or token type exactly if it is one of the specification's names, byte for byte. Each error constructor yields its own name and status with the given description and nothing else, fresh each time. Printing an error shows its name and description.",
  [I], "all strings of up to 6 (thorough: 8) bytes and one-byte mutations of every known name; all constructors",
  "The tests check the names themselves; near misses and sharing between errors are not covered.",
  ["oauth2.go", "error.go"],
  [("known types", "oauth2.go KnownGrantType, KnownResponseType, KnownTokenType"), ("constructors", "error.go")],
  ["results of the predicates, fields of the errors"],
  "Strings are symbolic.")
p("P30", "Client and server understand each other for every value",
  "What a client sends is what the server decides on, and what the server decided is what the client returns, for every user name, password, scope, client id and secret. Tokens obtained this way can be used, introspected, refreshed and revoked by that client with the effect it expects. A code delivered by redirect is redeemed by the client with the same redirect URI, and only once.",
  [I, H], "all field values within the bounds listed in the evidence, over an in-process transport",
  "The tests run the client against the server with plain values only.",
  ["client.go", "server.go", "token.go", "introspection.go", "revocation.go"],
  [("client", "client.go"), ("server", "server.go")],
  ["results of client calls against the server"],
  "Client, http.Client and server run symbolically end to end over an in-process transport.")
p("P31", "The conformance suite passes right servers and fails deviating ones",
  "Run against a server that answers as specified, the suite passes for every declared set of features, and each of its tests passes on its own. It fails as soon as one answer deviates in status, error code, token type, scope, lifetime, presence of tokens, state, place of redirect parameters or introspected state, or the server no longer enforces what the declared features promise: expiry, existence and scope of tokens, client and owner authentication, registered redirect URIs, binding and single use of codes and refresh tokens, revocation, code replay mitigation. A description lacking a value that the declared features need is refused, and every request reaches the server exactly as described.",
  [I, H, F], "all values of the deviating field, all answers of all tests, 62 server defects and all feature sets within the bounds listed in the evidence",
  "The suite is only ever run against one conforming server: a check it forgot to make, or a step that asks for the wrong thing, fails no test.",
  ["oauth2test/spec.go", "oauth2test/general.go", "oauth2test/endpoints.go", "oauth2test/grants.go", "oauth2test/request.go", "oauth2test/utils.go", "server.go"],
  [("suite", "oauth2test/spec.go Run and the tests it calls"), ("requests", "oauth2test/request.go Do"), ("reading answers", "oauth2test/utils.go")],
  ["whether the suite fails", "requests reaching the server"],
  "The suite, testify's assertions and the reference server run symbolically together; one answer or one rule of the server is altered. Not demanded, because the suite does not promise it: the challenge's error code after a code replay, more than the status for an unknown token, token endpoint challenges beyond the client credentials grant.")

NA = [
  dict(id="P32", title="Secrets are compared in time independent of their content",
       statement="The time to refuse a wrong token signature does not depend on how many of its bytes are right.",
       quantifier=dict(over=[I], text="all wrong signatures"),
       why_tests_cant="Tests do not measure time.",
       anchors=dict(files=["hs256.go"], mechanism=[dict(name="constant-time comparison", where="hs256.go Valid, Equal")], observe_at=["timing"], hook_needed=None),
       reason="Timing is not a function of the program's values: neither SSA nor the solver model carries execution time, so a check would only assert which function is called, which judges how the code is written rather than what it does."),
]

EXTRA = os.path.join(HERE, "tools", "extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k != "note"}) + "\n")
    for x in NA:
        f.write(json.dumps({k: v for k, v in x.items() if k != "reason"}) + "\n")

TRUST = " Bounded: holds for every value, schedule or history within the bounds written in the evidence; trusts the engine's SSA translation (checked against native runs of sampled paths on every run), the SMT solver and the modelled standard library intrinsics listed in DESIGN.md."
json.dump(dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    checks=[dict(property=x["id"], quick_cmd="python3 check.py " + x["id"], thorough_cmd="python3 check.py %s --tier thorough" % x["id"],
                 evidence_file="evidence/%s.json" % x["id"],
                 technique="symbolic execution of the Go SSA with an SMT solver, counterexamples replayed natively",
                 level="model_checking", level_note=x["note"] + TRUST) for x in P],
    not_applicable=[dict(property=x["id"], reason=x["reason"]) for x in NA],
), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)

# table of harnesses in DESIGN.md
import sys, glob, re
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check
meta = check.harness_meta()
out = []
for x in P:
    out.append("### %s %s\n\n%s\n\nQuantified over: %s. %s\n" % (x["id"], x["title"], x["statement"], x["quantifier"]["text"], x["why_tests_cant"]))
    for n in sorted(meta):
        if n.startswith("vfH_%s_" % x["id"]):
            m = meta[n]
            out.append("* `%s` - %s\n  *Bounds:* %s. *Witnesses:* %s.%s" % (n[4:], m["doc"], m["bounds"], " ".join(m["reach"]), "".join(" *Assumes:* %s." % a for a in m.get("assume", []))))
    out.append("")
sd = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    try:
        m = json.load(open(os.path.join(d, "meta.json")))
    except OSError:
        continue
    sd.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", "")))
sd = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"] + sd
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
s = re.sub(r"(<!-- generated by tools/gen.py -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(out) + m.group(2), s, flags=re.S)
s = re.sub(r"(<!-- seeded table -->\n).*?(<!-- end seeded -->)", lambda m: m.group(1) + "\n".join(sd) + "\n" + m.group(2), s, flags=re.S)
open(path, "w").write(s)
