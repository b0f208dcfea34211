From 34a2d585109642c12dc036dfbc3c0663a7de7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:21 +0000
Subject: [PATCH 01/45] fix: bind authorization code redemption to the client
 it was issued to

---
 server/services/token/grant_authorization_code.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..c47933b 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -112,9 +112,15 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	}
 
 	// Check if not nil
-	if ar.Request == nil {
+	if ar == nil || ar.Request == nil {
 		res.Error = rfcerrors.InvalidGrant().Build()
-		return res, fmt.Errorf("retrieve authorization request is invalid '%s': %w", grant.Code, err)
+		return res, fmt.Errorf("retrieved authorization request is invalid '%s'", grant.Code)
+	}
+
+	// Check client binding
+	if ar.Request.ClientId != req.GetClient().GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
+		return res, fmt.Errorf("authorization code '%s' was not issued to the client", grant.Code)
 	}
 
 	// Delete session
-- 
2.43.0


From 1aa4b2f7ac1a98cdcdf52cdd46533ddb70c10ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 02/45] fix: initialise status and expiration of device
 authorization sessions

---
 server/services/device/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..b80d472 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -51,6 +51,9 @@ func New(clients storage.ClientReader, deviceCodeSessions storage.DeviceCodeSess
 
 var timeFunc = time.Now
 
+// deviceCodeLifetime defines how long a device authorization stays redeemable.
+const deviceCodeLifetime = 2 * time.Minute
+
 // -----------------------------------------------------------------------------
 
 func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorizationRequest) (*flowv1.DeviceAuthorizationResponse, error) {
@@ -113,6 +116,8 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
+		ExpiresAt:  uint64(timeFunc().Add(deviceCodeLifetime).Unix()),
 	}
 
 	// Store device code request
-- 
2.43.0


From 6053335412c30647b47f0d115ca8d64fde58270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 03/45] fix: bind device code tokens to the requested audience

---
 server/services/token/grant_device_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..9c2e845 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -139,6 +139,9 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 	if session.Scope != nil {
 		tm.Scope = *session.Scope
 	}
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
 
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
-- 
2.43.0


From 6b9165ee334e4ec67e1106775cd73e5ebca3c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:12 +0000
Subject: [PATCH 04/45] fix: refuse the revocation of a token issued to another
 client

---
 server/services/token/revoke.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..953b02a 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -71,6 +71,13 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Check token ownership
+	// https://www.rfc-editor.org/rfc/rfc7009#section-2.1
+	if meta := t.GetMetadata(); meta != nil && meta.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("token was not issued to the client")
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
-- 
2.43.0


From 25dcf880e8d5a9f10a09b70dc7e34239fa836fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:36 +0000
Subject: [PATCH 05/45] fix: report unresolved token exchange audiences instead
 of dereferencing nil

---
 server/services/token/grant_token_exchange.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..26891e5 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -177,7 +177,8 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
 		if errors.Is(err, storage.ErrNotFound) {
-- 
2.43.0


From 90ab957e7062f066d88aae5cc520ea7dd2db8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:58 +0000
Subject: [PATCH 06/45] fix: set the error of failed token exchange responses

---
 server/services/token/grant_token_exchange.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 26891e5..f316b5d 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -193,16 +193,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
-- 
2.43.0


From 6d2b43b6cdf7664bbc35e6f022f565b1a35e0a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 07/45] fix: set the not-before bound of exchanged tokens

---
 server/services/token/grant_token_exchange.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index f316b5d..5c428ea 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -167,6 +167,7 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 			Subject:   st.Metadata.Subject,
 			ClientId:  client.ClientId,
 			IssuedAt:  uint64(now.Unix()),
+			NotBefore: uint64(now.Unix() + 1),
 			ExpiresAt: uint64(now.Add(1 * time.Minute).Unix()),
 			Scope:     scope,
 		},
-- 
2.43.0


From 09c1194bf3bf563df2492d97b7710e708c4d84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:41 +0000
Subject: [PATCH 08/45] fix: refuse token exchanges widening the subject token
 scope

---
 server/services/token/grant_token_exchange.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 5c428ea..eebea93 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"strings"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -154,6 +155,14 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Prepare token metadata
 	scope := st.Metadata.Scope
 	if req.Scope != nil {
+		// The exchange must not widen the scope of the subject token
+		granted := types.StringArray(strings.Fields(st.Metadata.Scope))
+		for _, requested := range strings.Fields(*req.Scope) {
+			if !granted.Contains(requested) {
+				res.Error = rfcerrors.InvalidScope().Build()
+				return fmt.Errorf("scope '%s' is not granted to the subject_token", requested)
+			}
+		}
 		scope = *req.Scope
 	}
 
-- 
2.43.0


From efeb79c7dd19559167bbd005d869e7bbcdf3a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:31 +0000
Subject: [PATCH 09/45] fix: reject nil client attestation authentication
 requests

---
 server/clientauthentication/client_attestation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..9d9fbda 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -58,6 +58,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Validate request
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, errors.New("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
-- 
2.43.0


From f7d4eb4a16247260cc84b70a3573a26551cdb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 10/45] fix: return the error response of rejected client
 attestation proofs

---
 server/clientauthentication/client_attestation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 9d9fbda..57ed966 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -107,18 +107,21 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	var claims clientAttestationPOPClaims
 	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
-- 
2.43.0


From 9f2530ddf085e378f14015ac3e34e2583790ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 11/45] fix: require the confirmation key of client
 attestations

---
 server/clientauthentication/client_attestation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 57ed966..6cdab81 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -157,7 +157,7 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 	}
 
 	// Validate claims
-	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
+	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
 		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-- 
2.43.0


From 76392a62cf81f7544ab2a65547876eeb5e5de3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:35 +0000
Subject: [PATCH 12/45] fix: bind client attestation proofs to the attested
 client

---
 .../client_attestation.go                     | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 6cdab81..d3f6d46 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -90,7 +90,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	clientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
@@ -124,6 +124,11 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 		return res, fmt.Errorf("not useable token")
 	}
 
+	if claims.Issuer != clientID {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("client attestation PoP is not issued by the attested client")
+	}
+
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
@@ -143,55 +148,55 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (string, *jose.JSONWebKey, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
-		return nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
+		return "", nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
 	}
 
 	// Retrieve payload claims
 	var claims clientAttestationClaims
 	if errDecode := json.Unmarshal(rawAttestation.UnsafePayloadWithoutVerification(), &claims); errDecode != nil {
-		return nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
+		return "", nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
-		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+		return "", nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		return "", nil, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		return "", nil, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return nil, fmt.Errorf("error during client retrieval: %w", err)
+			return "", nil, fmt.Errorf("error during client retrieval: %w", err)
 		}
-		return nil, fmt.Errorf("client not found")
+		return "", nil, fmt.Errorf("client not found")
 	}
 
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
-		return nil, fmt.Errorf("client jwks is nil")
+		return "", nil, fmt.Errorf("client jwks is nil")
 	}
 
 	// Parse JWKS
 	var jwks jose.JSONWebKeySet
 	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {
-		return nil, fmt.Errorf("client jwks is invalid: %w", err)
+		return "", nil, fmt.Errorf("client jwks is invalid: %w", err)
 	}
 
 	// Try to validate assertion with one of keys
 	if err := jwk.ValidateSignature(&jwks, rawAttestation); err != nil {
-		return nil, fmt.Errorf("client assertion is invalid: %w", err)
+		return "", nil, fmt.Errorf("client assertion is invalid: %w", err)
 	}
 
-	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	// Extract client identifier and public key
+	return claims.Subject, claims.Confirmation.JWK, nil
 }
-- 
2.43.0


From c4008ceaf428e2d37619f75e98a43cf3771205a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:42 +0000
Subject: [PATCH 13/45] fix: compare redirect URIs exactly

---
 server/services/authorization/service.go          | 3 ++-
 server/services/token/grant_authorization_code.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..ca97d1c 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -21,6 +21,7 @@ import (
 	"context"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
@@ -347,7 +348,7 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 	}
 
 	// Validate client response_types
-	if !types.StringArray(client.RedirectUris).Contains(req.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, req.RedirectUri) {
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index c47933b..0f9a9f4 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -23,6 +23,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 	"unicode/utf8"
 
@@ -135,7 +136,7 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and token '%s' must be identic", ar.Request.RedirectUri, grant.RedirectUri)
 	}
-	if !types.StringArray(client.RedirectUris).Contains(grant.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and client '%s' must be validated", grant.RedirectUri, client.RedirectUris)
 	}
-- 
2.43.0


From d393fde11bc754950fda96bfae8a788e678491be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:04 +0000
Subject: [PATCH 14/45] fix: remove every occurrence of an item from a string
 array

---
 sdk/types/string_array.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..16bf926 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -45,17 +45,13 @@ func (s *StringArray) AddIfNotContains(item string) {
 
 // Remove item from collection
 func (s *StringArray) Remove(item string) {
-	idx := -1
-	for i, v := range *s {
-		if strings.EqualFold(item, v) {
-			idx = i
-			break
+	kept := (*s)[:0]
+	for _, v := range *s {
+		if !strings.EqualFold(item, v) {
+			kept = append(kept, v)
 		}
 	}
-	if idx < 0 {
-		return
-	}
-	*s = append((*s)[:idx], (*s)[idx+1:]...)
+	*s = kept
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From d0167dea166beb4d4a3f61debb915167f8f13fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:23 +0000
Subject: [PATCH 15/45] fix: compare PKCE challenges with the hashed verifier

---
 sdk/pkce/verifier.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..f3c891d 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -65,13 +65,11 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("invalid challenge format: %w", err)
 	}
 
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
-		return false, fmt.Errorf("invalid verifier format: %w", err)
-	}
+	// Compute the expected challenge
+	hash := sha256.Sum256([]byte(verifier))
 
 	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	same := types.SecureCompare(chRaw, hash[:])
 
 	// No error
 	return same, nil
-- 
2.43.0


From 2eb7755e13aedbe78a63bfbadae137f8d36e27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 16/45] fix: generate request URIs accepted by their own
 validator

---
 sdk/generator/request_uri.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..7fb331f 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -20,6 +20,7 @@ package generator
 import (
 	"context"
 	"errors"
+	"fmt"
 	"regexp"
 	"strings"
 
@@ -31,7 +32,7 @@ const (
 	DefaultRequestURILen = 32
 )
 
-var requestURIMatcher = regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`)
+var requestURIMatcher = regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`)
 
 // DefaultRequestURI returns the default request uri generator.
 func DefaultRequestURI() RequestURI {
@@ -44,7 +45,7 @@ type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
 	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return fmt.Sprintf("urn:solid:%s", code), nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From 7b91c4fb5272a1de737608ab61a7e7fc36c03b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:06 +0000
Subject: [PATCH 17/45] fix: emit the JWT token types expected by the decoders

---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..b4833b5 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(fmt.Sprintf("%s+jwt", ds.tokenType)))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From f4b47c04d26c5bcd8c9e93d3a2f5c3bba2b74ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:27 +0000
Subject: [PATCH 18/45] fix: reject tokens without embedded key instead of
 dereferencing nil

---
 sdk/token/jwt/embedded_verifier.go | 8 ++++++++
 sdk/token/jwt/token_adapter.go     | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..5412245 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -92,8 +92,16 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 		return fmt.Errorf("unable to parse signed token: %w", err)
 	}
 
+	// Check token header
+	if len(t.Headers) == 0 {
+		return fmt.Errorf("unable to process token without header")
+	}
+
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return errors.New("token has no embedded public key")
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/token_adapter.go b/sdk/token/jwt/token_adapter.go
index 962f65f..d56cdb3 100644
--- a/sdk/token/jwt/token_adapter.go
+++ b/sdk/token/jwt/token_adapter.go
@@ -60,6 +60,10 @@ func (tw *tokenAdapter) PublicKeyThumbPrint() (string, error) {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
 
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return "", fmt.Errorf("token has no embedded public key")
+	}
+
 	// Generate thumbprint
 	h, err := tw.token.Headers[0].JSONWebKey.Thumbprint(crypto.SHA256)
 	if err != nil {
-- 
2.43.0


From e062034ef08c8b27be1eb050e908b50ac0775ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 19/45] fix: reject nil key sets and key providers

---
 sdk/token/cwt/signer.go   | 4 ++++
 sdk/token/jwt/verifier.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sdk/token/cwt/signer.go b/sdk/token/cwt/signer.go
index 5ed4a10..bebc375 100644
--- a/sdk/token/cwt/signer.go
+++ b/sdk/token/cwt/signer.go
@@ -55,6 +55,10 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", errors.New("unable to sign nil claim object")
 	}
 
+	if ds.keyProvider == nil {
+		return "", errors.New("unable to use nil keyProvider")
+	}
+
 	// Retrieve signing key
 	key, err := ds.keyProvider(ctx)
 	if err != nil {
diff --git a/sdk/token/jwt/verifier.go b/sdk/token/jwt/verifier.go
index f2d1e3c..85d5f23 100644
--- a/sdk/token/jwt/verifier.go
+++ b/sdk/token/jwt/verifier.go
@@ -87,6 +87,10 @@ func (v *defaultVerifier) Claims(ctx context.Context, raw string, claims any) er
 		return fmt.Errorf("unable to retrieve KeySet: %w", err)
 	}
 
+	if jwks == nil {
+		return errors.New("unable to verify token with nil KeySet")
+	}
+
 	// Set all keys by default
 	keys := jwks.Keys
 
-- 
2.43.0


From 492b9365e11c643fdfec0d84cce07db37cab5aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 20/45] fix: issue JARM responses in the name of the given
 issuer

---
 sdk/jarm/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/jarm/encoder.go b/sdk/jarm/encoder.go
index 7c853c5..bcb449c 100644
--- a/sdk/jarm/encoder.go
+++ b/sdk/jarm/encoder.go
@@ -73,7 +73,7 @@ func (d *tokenEncoder) Encode(ctx context.Context, issuer string, resp *flowv1.A
 
 		claims = &responseClaims{
 			State:     resp.State,
-			Issuer:    resp.Issuer,
+			Issuer:    issuer,
 			Audience:  resp.ClientId,
 			Code:      resp.Code,
 			ExpiresAt: uint64(time.Now().Add(time.Duration(resp.ExpiresIn) * time.Second).Unix()),
-- 
2.43.0


From 47052ad25e2d3b9c399624ec7199dff939cbe6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 21/45] fix: reject DPoP proofs without identifier

---
 sdk/dpop/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index aefb950..955b07c 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -232,6 +232,11 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 		return "", fmt.Errorf("invalid proof: issued in the future")
 	}
 
+	// Check proof identifier
+	if claims.JTI == "" {
+		return "", fmt.Errorf("invalid proof: jti must not be blank")
+	}
+
 	// Compute jti hash
 	jtiHashRaw := blake2b.Sum256([]byte(claims.JTI))
 	jtiStorage := base64.RawURLEncoding.EncodeToString(jtiHashRaw[:])
-- 
2.43.0


From a73ea8799d1e0ec1f53045be3eabf4d7992ef921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:24 +0000
Subject: [PATCH 22/45] fix: check the DPoP confirmation even without a token
 value

---
 sdk/dpop/verifier.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 955b07c..f309512 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -137,12 +137,12 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 		if expected := base64.RawURLEncoding.EncodeToString(ath[:]); !types.SecureCompareString(*claims.AccessTokenHash, expected) {
 			return "", errors.New("invalid proof / token association, token mismatch")
 		}
+	}
 
-		// Check access token confirmation
-		if dopts.tokenConfirmation != nil {
-			if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
-				return "", errors.New("invalid proof / token association, proof mismatch")
-			}
+	// Check access token confirmation
+	if dopts.tokenConfirmation != nil {
+		if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
+			return "", errors.New("invalid proof / token association, proof mismatch")
 		}
 	}
 
-- 
2.43.0


From c24841bd239829206ef6270ef34d19f00e224c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 23/45] fix: reject oversized base62 values instead of
 panicking

---
 sdk/token/verifiable/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..eb0e5b3 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,9 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	if i.BitLen() > 8*length {
+		return []byte{}, fmt.Errorf("base62 value too large: %q", s)
+	}
+
 	return i.FillBytes(out), nil
 }
-- 
2.43.0


From 08579dcc13d0e10d72e0e4049941ffe29dfbe106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:03 +0000
Subject: [PATCH 24/45] fix: separate the issuer from the value in storage keys

---
 server/storage/inmemory/authorization_code_session.go | 1 +
 server/storage/inmemory/authorization_request.go      | 1 +
 server/storage/inmemory/device_code_session.go        | 2 ++
 server/storage/inmemory/token.go                      | 1 +
 4 files changed, 5 insertions(+)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..918ca32 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -80,6 +80,7 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..05adb99 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -80,6 +80,7 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 
 	h.Write([]byte("solid:authorization-requests:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(requestURI))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..b834466 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -103,6 +103,7 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
@@ -117,6 +118,7 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..48196e7 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -128,6 +128,7 @@ func (s *tokenStorage) deriveValue(issuer, value string) string {
 
 	h.Write([]byte("solid:token:v1"))
 	h.Write([]byte(issuer))
+	h.Write([]byte{0})
 	h.Write([]byte(value))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 606c97d6d7425cff189e033afed8a0bb9aed43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:23 +0000
Subject: [PATCH 25/45] fix: key device code sessions by the given issuer

---
 server/storage/inmemory/device_code_session.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index b834466..1ee81d1 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -50,8 +50,8 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
 
 	// No error
 	return uint64(120), nil
@@ -85,8 +85,8 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
 
 	// No error
 	return nil
-- 
2.43.0


From d817f200e59ea6a27b1455a26f4274dd27b538d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:44 +0000
Subject: [PATCH 26/45] fix: register DPoP proofs atomically

---
 server/storage/inmemory/proof.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index d22c3ba..a074c5a 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -43,10 +43,8 @@ func DPoPProofs() storage.DPoP {
 // -----------------------------------------------------------------------------
 
 func (s *proofCache) Register(ctx context.Context, id string) error {
-	// Insert in cache
-	s.backend.Set(id, id, cache.DefaultExpiration)
-	// No error
-	return nil
+	// Insert in cache, fails when the proof is already known
+	return s.backend.Add(id, id, cache.DefaultExpiration)
 }
 
 func (s *proofCache) Delete(ctx context.Context, id string) error {
-- 
2.43.0


From 13e63546484ee1e229c699bbbcf1b32dc02ccc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:05 +0000
Subject: [PATCH 27/45] fix: consume authorization codes atomically

---
 .../storage/inmemory/authorization_code_session.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index 918ca32..829fb28 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,6 +31,7 @@ import (
 )
 
 type sessionStorage struct {
+	lock    sync.Mutex
 	backend *cache.Cache
 }
 
@@ -54,7 +56,17 @@ func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	s.backend.Delete(s.deriveKey(issuer, code))
+	key := s.deriveKey(issuer, code)
+
+	// Only one caller is allowed to consume the session
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
-- 
2.43.0


From 47f256299b40aa7414cc49c3aa22084a36145b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:28 +0000
Subject: [PATCH 28/45] fix: consume authorization requests atomically

---
 server/storage/inmemory/authorization_request.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 05adb99..3da2597 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,6 +31,7 @@ import (
 )
 
 type authorizationRequestStorage struct {
+	lock    sync.Mutex
 	backend *cache.Cache
 }
 
@@ -54,7 +56,17 @@ func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requ
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
-	s.backend.Delete(s.deriveKey(issuer, requestURI))
+	key := s.deriveKey(issuer, requestURI)
+
+	// Only one caller is allowed to consume the request
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
-- 
2.43.0


From 57155081867d02376e4e84c41d60172aab68192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 29/45] fix: guard the in-memory client index

---
 server/storage/inmemory/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..02819d4 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
 
@@ -29,6 +30,7 @@ import (
 )
 
 type clientStorage struct {
+	lock    sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -173,6 +175,9 @@ func Clients() storage.Client {
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
 	// Check is client exists
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+
 	client, ok := s.backend[id]
 	if !ok {
 		return nil, storage.ErrNotFound
@@ -183,6 +188,9 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
@@ -200,6 +208,9 @@ func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (strin
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
 	// Assign to storage
 	s.backend[c.ClientId] = c
 
-- 
2.43.0


From 8e87db93e0ceda99ffdc5242ffdabbbaf7e6f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:11 +0000
Subject: [PATCH 30/45] fix: do not share stored tokens with callers

---
 server/storage/inmemory/token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 48196e7..b6245ab 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -71,7 +71,7 @@ func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Tok
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
@@ -82,7 +82,7 @@ func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*t
 	}
 
 	// No error
-	return client.(*tokenv1.Token), nil
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
-- 
2.43.0


From 0e5f44a204d6c328f34c8aac32e8934521f99032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:30 +0000
Subject: [PATCH 31/45] fix: isolate tokens of different issuers in the
 identifier index

---
 server/storage/inmemory/token.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index b6245ab..8e01e5e 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -56,7 +56,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
+	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
 	// No error
@@ -65,7 +65,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
 	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	client, ok := s.idIndex.Load(s.deriveID(issuer, id))
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
@@ -92,7 +92,7 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
-	s.idIndex.Delete(t.TokenId)
+	s.idIndex.Delete(s.deriveID(issuer, t.TokenId))
 	s.valueIndex.Delete(t.Value)
 
 	// No error
@@ -110,7 +110,7 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-	s.idIndex.Store(t.TokenId, t)
+	s.idIndex.Store(s.deriveID(issuer, t.TokenId), t)
 	s.valueIndex.Store(t.Value, t)
 
 	// No error
@@ -119,6 +119,10 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 
 // -----------------------------------------------------------------------------
 
+func (s *tokenStorage) deriveID(issuer, id string) string {
+	return fmt.Sprintf("%s\x00%s", issuer, id)
+}
+
 func (s *tokenStorage) deriveValue(issuer, value string) string {
 	// Create hasher
 	h, err := blake2b.New256([]byte(`%JwQL_C=w^R@9?{J,=;LHe=&n0L1P{QrS=MsA}7H]V3fHd8&$noL&"hZH;&Uw)3`))
-- 
2.43.0


From 4ab34196f8f4de75f0f0bb142e2d1a2677035709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 32/45] fix: do not share stored device code sessions with
 callers

---
 server/storage/inmemory/device_code_session.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 1ee81d1..cbf47a2 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -24,6 +24,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -67,7 +68,7 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
@@ -77,7 +78,7 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
-- 
2.43.0


From aa38ddfc85d13f618f9f16148ca386b04de10f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:14 +0000
Subject: [PATCH 33/45] fix: release the bodies of unexpected client responses

---
 client/http.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/http.go b/client/http.go
index a67df99..49da069 100644
--- a/client/http.go
+++ b/client/http.go
@@ -57,13 +57,17 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 
 	// Do the query
 	response, err := c.httpClient.Do(req)
-	if err != nil || response.StatusCode != http.StatusOK {
+	if err != nil {
 		return nil, fmt.Errorf("unable to parse server metadata request: %w", err)
 	}
 	defer response.Body.Close()
 
+	if response.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to retrieve server metadata, got status %d", response.StatusCode)
+	}
+
 	// Parse response
-	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
+	if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
 
@@ -451,6 +455,8 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	if err != nil {
 		return nil, 0, fmt.Errorf("unable to retrieve jwks: %w", err)
 	}
+	defer response.Body.Close()
+
 	if response.StatusCode != http.StatusOK {
 		var err corev1.Error
 
-- 
2.43.0


From 0a5b89718ed66b5c5318f5f9efeb1929fb5e9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:00 +0000
Subject: [PATCH 34/45] fix: carry the confirmation in refresh tokens

---
 sdk/token/refresh_token.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/token/refresh_token.go b/sdk/token/refresh_token.go
index 760fc88..3a4fe7d 100644
--- a/sdk/token/refresh_token.go
+++ b/sdk/token/refresh_token.go
@@ -88,6 +88,12 @@ func (c *refreshTokenGenerator) Generate(ctx context.Context, t *tokenv1.Token)
 		Scope:    t.Metadata.Scope,
 	}
 
+	// If token has a confirmation
+	if t.Confirmation != nil {
+		// Add jwt key token proof
+		claims.Cnf = t.Confirmation
+	}
+
 	// Sign the assertion
 	raw, err := c.signer.Serialize(ctx, claims)
 	if err != nil {
-- 
2.43.0


From 9e5d0070c40a313c48fa8aa9bee47ea7ac7fbaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:17 +0000
Subject: [PATCH 35/45] fix: set the subject of client credentials tokens

---
 server/services/token/grant_client_credentials.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_client_credentials.go b/server/services/token/grant_client_credentials.go
index 97fc7ec..0beb3a2 100644
--- a/server/services/token/grant_client_credentials.go
+++ b/server/services/token/grant_client_credentials.go
@@ -78,7 +78,8 @@ func (s *service) clientCredentials(ctx context.Context, client *clientv1.Client
 
 	// Prepare token
 	tokenMeta := &tokenv1.TokenMeta{
-		Issuer: req.Issuer,
+		Issuer:  req.Issuer,
+		Subject: client.ClientId,
 	}
 	if req.Scope != nil {
 		tokenMeta.Scope = *req.Scope
-- 
2.43.0


From f52bec927a5817adbd694c64d2a14a477729e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 36/45] fix: verify the signature in the embedded key verifier

---
 sdk/token/jwt/embedded_verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index 5412245..c1bdb55 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -80,6 +80,11 @@ func (v *embeddedKeyVerifier) Verify(token string) error {
 		return errors.New("token has an invalid key for given algorithm")
 	}
 
+	// Verify the signature with the embedded key
+	if err := t.Claims(k); err != nil {
+		return fmt.Errorf("unable to verify token signature: %w", err)
+	}
+
 	// No error
 	return nil
 }
-- 
2.43.0


From ae9357fab6763ad235203d0cfd4b1646e8a716ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:10 +0000
Subject: [PATCH 37/45] fix: remember proof identifiers as long as the proof is
 acceptable

---
 server/storage/inmemory/proof.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index a074c5a..6c82af5 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -32,8 +32,9 @@ type proofCache struct {
 
 // DPoPProofs returns an dpop proof cache.
 func DPoPProofs() storage.DPoP {
-	// Initialize in-memory caches
-	backendCache := cache.New(1*time.Minute, 10*time.Minute)
+	// A proof is acceptable up to one minute before and after its issue time,
+	// so that its identifier must be kept for more than two minutes.
+	backendCache := cache.New(3*time.Minute, 10*time.Minute)
 
 	return &proofCache{
 		backend: backendCache,
-- 
2.43.0


From 7e2d1c3cdbddeb82dc187cb9481799f0ae86f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:01 +0000
Subject: [PATCH 38/45] fix: approve a pending device session only once

---
 server/storage/inmemory/device_code_session.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index cbf47a2..9fef7c1 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -31,6 +32,7 @@ import (
 )
 
 type deviceCodeSessionStorage struct {
+	lock            sync.Mutex
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
 }
@@ -85,6 +87,18 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
+	// Only one caller is allowed to approve a pending session
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
+	x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode))
+	if !found {
+		return storage.ErrNotFound
+	}
+	if x.(*sessionv1.DeviceCodeSession).Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
+		return fmt.Errorf("the session is not pending")
+	}
+
 	// Insert in cache
 	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
 	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
-- 
2.43.0


From 0170f2dccbc921fb72a85771623101d3aae385d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 39/45] fix: client panics on empty server metadata

---
 client/http.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/http.go b/client/http.go
index 49da069..6b2f22e 100644
--- a/client/http.go
+++ b/client/http.go
@@ -71,6 +71,11 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
 
+	// A JSON null is not a metadata document
+	if c.serverMetadata == nil {
+		return nil, fmt.Errorf("server metadata document is empty")
+	}
+
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
 		return nil, fmt.Errorf("unable to retrieve public keys: %w", err)
-- 
2.43.0


From ca1b2320b26d52a15187a14fb5e0d71fcc9d4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 40/45] fix: client panics on a key set response without keys

---
 client/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index 6b2f22e..fad437f 100644
--- a/client/http.go
+++ b/client/http.go
@@ -480,7 +480,7 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check keys
-	if len(jwks.Keys) == 0 {
+	if jwks.JSONWebKeySet == nil || len(jwks.Keys) == 0 {
 		return nil, 0, fmt.Errorf("remote jwks doesn't contain keys")
 	}
 
-- 
2.43.0


From 720bdf6fb27f249b10412ef77c8e5defc7c4418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 41/45] fix: expired device codes are reported as expired_token
 (RFC 8628)

---
 sdk/rfcerrors/errors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/rfcerrors/errors.go b/sdk/rfcerrors/errors.go
index 1e5ad4e..e70a7c2 100644
--- a/sdk/rfcerrors/errors.go
+++ b/sdk/rfcerrors/errors.go
@@ -107,10 +107,11 @@ func AccessDenied() ErrorBuilder {
 	}
 }
 
-// TokenExpired returns a compliant `token_expired` error.
+// TokenExpired returns a compliant `expired_token` error.
+// https://www.rfc-editor.org/rfc/rfc8628#section-3.5
 func TokenExpired() ErrorBuilder {
 	return &defaultErrorBuilder{
-		err:              "token_expired",
+		err:              "expired_token",
 		errorDescription: "The 'device_code' has expired, and the device authorization session has concluded.",
 	}
 }
-- 
2.43.0


From a702be1394c4000b759071e5fb1622f126397c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 42/45] fix: data race on the key cache of the HTTP client

---
 client/http.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/http.go b/client/http.go
index fad437f..0c99277 100644
--- a/client/http.go
+++ b/client/http.go
@@ -25,6 +25,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -93,6 +94,7 @@ type httpClient struct {
 	httpClient     *http.Client
 	jwks           *jose.JSONWebKeySet
 	jwksExpiration uint64
+	jwksMutex      sync.Mutex
 	serverMetadata *discoveryv1.ServerMetadata
 }
 
@@ -437,6 +439,10 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 }
 
 func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint64, error) {
+	// Protect the key cache against concurrent refreshes
+	c.jwksMutex.Lock()
+	defer c.jwksMutex.Unlock()
+
 	// Check if keys are not cached and not expired
 	if c.jwks != nil && c.jwksExpiration > uint64(time.Now().Unix()) {
 		// Return cached public keys
-- 
2.43.0


From e7f4e3ebd56bdf708fb0b73608785aec5ec8e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 43/45] fix: token introspection by the HTTP client panics on
 every response

---
 client/claims.go | 16 +++++++++++++---
 client/http.go   | 17 ++++++++++++++---
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..20db094 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -60,8 +60,18 @@ type jsonJWKSResponse struct {
 	Expires             uint64 `json:"exp"`
 }
 
+// https://datatracker.ietf.org/doc/html/rfc7662#section-2.2
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       bool                       `json:"active"`
+	Issuer       string                     `json:"iss"`
+	Subject      string                     `json:"sub"`
+	IssuedAt     uint64                     `json:"iat"`
+	NotBefore    uint64                     `json:"nbf"`
+	ExpiresAt    uint64                     `json:"exp"`
+	ClientID     string                     `json:"client_id"`
+	Scope        string                     `json:"scope"`
+	Audience     string                     `json:"aud"`
+	Acr          *string                    `json:"acr,omitempty"`
+	AuthTime     *uint64                    `json:"auth_time,omitempty"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 }
diff --git a/client/http.go b/client/http.go
index 0c99277..633d6e5 100644
--- a/client/http.go
+++ b/client/http.go
@@ -430,9 +430,20 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 
 	// Return token info
 	return &tokenv1.Token{
-		Issuer:       c.issuer,
-		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		Issuer: c.issuer,
+		Status: tokenStatus,
+		Metadata: &tokenv1.TokenMeta{
+			Issuer:    t.Issuer,
+			Subject:   t.Subject,
+			IssuedAt:  t.IssuedAt,
+			NotBefore: t.NotBefore,
+			ExpiresAt: t.ExpiresAt,
+			ClientId:  t.ClientID,
+			Scope:     t.Scope,
+			Audience:  t.Audience,
+			Acr:       t.Acr,
+			AuthTime:  t.AuthTime,
+		},
 		Confirmation: t.Confirmation,
 		Value:        token,
 	}, nil
-- 
2.43.0


From 60353bae9f3fc549529b011d53741dd52c7c00d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:13 +0000
Subject: [PATCH 44/45] fix: a storage failure during client attestation is
 reported as unauthorized_client

---
 server/clientauthentication/client_attestation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index d3f6d46..041a509 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -18,6 +18,9 @@ import (
 	"zntr.io/solid/server/storage"
 )
 
+// errClientRetrieval is returned when the attester could not be looked up.
+var errClientRetrieval = errors.New("error during client retrieval")
+
 // ClientAttestation authentication method.
 func ClientAttestation(clients storage.ClientReader, supportedAlgorithms []jose.SignatureAlgorithm) AuthenticationProcessor {
 	return &clientAttestationAuthentication{
@@ -92,6 +95,10 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	// Decode assertions without validation first
 	clientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
+		if errors.Is(err, errClientRetrieval) {
+			res.Error = rfcerrors.ServerError().Build()
+			return res, fmt.Errorf("unable to validate client attestation: %w", err)
+		}
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
 	}
@@ -176,7 +183,7 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return "", nil, fmt.Errorf("error during client retrieval: %w", err)
+			return "", nil, fmt.Errorf("%w: %w", errClientRetrieval, err)
 		}
 		return "", nil, fmt.Errorf("client not found")
 	}
-- 
2.43.0


From 4630b4b116378f566d8ccb8310fbf623d23482a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 45/45] fix: return the response mode of the recorded
 authorization request

---
 server/services/authorization/service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index ca97d1c..42f62ad 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -159,6 +159,8 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 	res.ExpiresIn = expiresIn
 	// Assign issuer
 	res.Issuer = req.Issuer
+	// Assign response mode
+	res.ResponseMode = req.Request.GetResponseMode()
 
 	return res, err
 }
-- 
2.43.0

