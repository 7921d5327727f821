From 4c32191d525833a5ab617a80918a59b682483bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 1/5] fix: report expired tokens as inactive on introspection

---
 server.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server.go b/server.go
index b926c76..37ec293 100644
--- a/server.go
+++ b/server.go
@@ -553,6 +553,12 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
+		// report expired tokens as inactive
+		if accessToken.ExpiresAt.Before(time.Now()) {
+			_ = WriteIntrospectionResponse(w, res)
+			return
+		}
+
 		// set response
 		res.Active = true
 		res.Scope = accessToken.Scope
@@ -570,6 +576,12 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
+		// report expired tokens as inactive
+		if refreshToken.ExpiresAt.Before(time.Now()) {
+			_ = WriteIntrospectionResponse(w, res)
+			return
+		}
+
 		// set response
 		res.Active = true
 		res.Scope = refreshToken.Scope
-- 
2.43.0


From ccaac4848930894258ccbee293a79b5de6b1f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 2/5] fix: keep authorization code lineage when refreshing
 tokens

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 37ec293..68b85a1 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From eb487a9745ba9c7fc2a23347900a0395ec3918fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 3/5] fix: reject redirect URIs that carry a fragment

---
 authorization.go | 5 +++--
 token.go         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/authorization.go b/authorization.go
index 28e012f..f8e7850 100644
--- a/authorization.go
+++ b/authorization.go
@@ -3,6 +3,7 @@ package oauth2
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // A AuthorizationRequest is typically returned by ParseAuthorizationRequest and
@@ -55,8 +56,8 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 	}
 
 	// parse redirect uri
-	redirectURI, err := url.ParseRequestURI(redirectURIString)
-	if err != nil || redirectURI.Fragment != "" {
+	_, err = url.ParseRequestURI(redirectURIString)
+	if err != nil || strings.Contains(redirectURIString, "#") {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
diff --git a/token.go b/token.go
index f0a4db9..140ea5f 100644
--- a/token.go
+++ b/token.go
@@ -79,8 +79,8 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 
 	// validate redirect uri if present
 	if redirectURIString != "" {
-		redirectURI, err := url.ParseRequestURI(redirectURIString)
-		if err != nil || redirectURI.Fragment != "" {
+		_, err := url.ParseRequestURI(redirectURIString)
+		if err != nil || strings.Contains(redirectURIString, "#") {
 			return nil, InvalidRequest("invalid redirect URI")
 		}
 	}
-- 
2.43.0


From 28c3ecc31d19e7adc73dd7ede7769e81cf2a9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 4/5] fix: do not escape redirect fragment parameters twice

---
 oauth2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..d163e43 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -95,6 +95,9 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		return err
 	}
 
+	// prepare encoded fragment
+	var fragment string
+
 	// add params to fragment if requested
 	if useFragment {
 		// prepare fragment
@@ -106,7 +109,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// encode fragment
-		redirectURI.Fragment = f.Encode()
+		fragment = "#" + f.Encode()
 	} else {
 		// get current query
 		q := redirectURI.Query()
@@ -121,7 +124,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// set location
-	w.Header().Add("Location", redirectURI.String())
+	w.Header().Add("Location", redirectURI.String()+fragment)
 
 	// prevent caching
 	w.Header().Set("Cache-Control", "no-store")
-- 
2.43.0


From cea69a21574fe1d8cd251c1e4f832661dbfb4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 5/5] fix: do not let form values of requests share capacity

---
 introspection.go |  4 ++--
 revocation.go    |  4 ++--
 token.go         | 14 +++++++-------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/introspection.go b/introspection.go
index 7497713..3995ade 100644
--- a/introspection.go
+++ b/introspection.go
@@ -111,12 +111,12 @@ func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/revocation.go b/revocation.go
index f321679..ddee64e 100644
--- a/revocation.go
+++ b/revocation.go
@@ -66,12 +66,12 @@ func RevocationRequestValues(r RevocationRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/token.go b/token.go
index 140ea5f..96bfe4f 100644
--- a/token.go
+++ b/token.go
@@ -196,37 +196,37 @@ func TokenRequestValues(r TokenRequest) url.Values {
 
 	// set grant type if available
 	if r.GrantType != "" {
-		values["grant_type"] = slice[0:1]
+		values["grant_type"] = slice[0:1:1]
 	}
 
 	// set scope if available
 	if len(r.Scope) != 0 {
-		values["scope"] = slice[1:2]
+		values["scope"] = slice[1:2:2]
 	}
 
 	// set username if available
 	if r.Username != "" {
-		values["username"] = slice[2:3]
+		values["username"] = slice[2:3:3]
 	}
 
 	// set password if available
 	if r.Password != "" {
-		values["password"] = slice[3:4]
+		values["password"] = slice[3:4:4]
 	}
 
 	// set refresh token if available
 	if r.RefreshToken != "" {
-		values["refresh_token"] = slice[4:5]
+		values["refresh_token"] = slice[4:5:5]
 	}
 
 	// set redirect uri if available
 	if r.RedirectURI != "" {
-		values["redirect_uri"] = slice[5:6]
+		values["redirect_uri"] = slice[5:6:6]
 	}
 
 	// set code if available
 	if r.Code != "" {
-		values["code"] = slice[6:7]
+		values["code"] = slice[6:7:7]
 	}
 
 	return values
-- 
2.43.0

