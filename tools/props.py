# Source of properties.jsonl and of the checks in MANIFEST.json: run `python3 tools/gen.py`.
# (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, technique)
TOK = "server/services/token/"
AUT = "server/services/authorization/service.go"
DEV = "server/services/device/service.go"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique="path-sensitive abstract interpretation of the SSA form, with an obligation at every sink"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=text, why=why, files=files, mech=mech, technique=technique))


prop("C01", "A code is redeemed only by its client with its exact redirect URI", """
The token endpoint creates a token for the authorization_code grant only if the presented code was found for the request's issuer, the client recorded with the code is the authenticated client, and the presented redirect URI is non-empty, equals the one of the authorization request, and is exactly (byte for byte) one of the client's registered redirect URIs.""",
     "inputs histories", "every token request and every stored session, including sessions of other clients", "the tests redeem a handful of codes with one client; they do not cover every combination of stored session, client and request",
     [TOK + "grant_authorization_code.go"], ["code session lookup", "client and redirect comparison"])
prop("C02", "PKCE S256 is enforced at code redemption", """
The token endpoint creates a token for the authorization_code grant only if the presented verifier is 43 to 128 characters long, the recorded challenge method is S256, and the recorded challenge equals the unpadded base64url SHA-256 of that verifier.""",
     "inputs", "every verifier, challenge and method", "tests try a few verifiers; a missing or short-circuited comparison shows only for the attacker's input",
     [TOK + "grant_authorization_code.go", "sdk/pkce/verifier.go"], ["S256 comparison", "length bounds"])
prop("C03", "An authorization code is consumed before any token exists", """
On every path of the authorization_code grant the presented code has been deleted for the request's issuer, with a successful result, before any token is stored, and the grant never succeeds without having deleted it. A failed deletion prevents the issue of tokens.""",
     "histories fault_sequences schedules", "every ordering of storage calls and every failure of them", "mocks check the calls of one successful and a few failing runs",
     [TOK + "grant_authorization_code.go"], ["deletion of the code session before generation"])
prop("C04", "Tokens of the code grant carry exactly what the session authorised", """
Every access or refresh token stored by the authorization_code grant has the request's issuer, the subject recorded with the code, the scope and audience of the authorization request, the authenticated client and the key confirmation established for the token request, and is of the kind it is returned as. Tokens are only issued if the scope contains openid, refresh tokens only if it contains offline_access.""",
     "inputs histories", "every session and request", "tests compare tokens of a few fixed sessions; swapped or dropped fields need sessions that tell them apart",
     [TOK + "grant_authorization_code.go", TOK + "generator.go"], ["token construction from the session"])
prop("C05", "An authorization request is fully validated before it is persisted", """
An authorization request is stored (as a code session or as a pushed request) only if its state has at least 32 and its nonce at least 8 characters; audience, response type, client id, redirect URI, scope and code challenge are present; the redirect URI parses; the challenge is 43 characters long with method S256; response type and response mode are supported ones; and the looked-up client has registered the authorization_code grant, the response type, the response mode (after expansion of the generic jwt mode) and exactly the redirect URI.""",
     "inputs", "every authorization request and client registration", "table tests enumerate single missing fields, not all combinations on all entry points",
     [AUT], ["request validation shared by authorize and pushed requests"])
prop("C06", "offline_access survives only when consent is prompted", """
In every stored authorization request the scope is the requested one, except that for OpenID Connect requests offline_access is removed when the prompt is not consent. It is never removed when the prompt is consent, no other scope value is ever dropped or added, and the scope of requests without openid is unchanged.""",
     "inputs", "every scope value and prompt", "tests use single scopes; repeated values and orderings are not sampled",
     [AUT, "sdk/types/string_array.go"], ["scope rewriting before persistence"])
prop("C07", "A pushed request is stored for its authenticated client under a fresh URI", """
A pushed authorization request is stored only for an authenticated client whose id is the one in the request, for a non-empty request issuer, without a nested request_uri, and under a request URI freshly generated for that issuer. A success returns exactly the stored URI, the lifetime reported by storage and the issuer; an error returns no URI.""",
     "inputs fault_sequences", "every pushed request and every storage or generator failure", "tests cover a few mismatches with mocks",
     [AUT], ["client binding of pushed requests"])
prop("C08", "A request_uri is validated, single use and replaces the request", """
When an authorization request refers to a pushed request, a code is created only if the reference is valid for the issuer, the pushed request was retrieved for that issuer and deleted successfully beforehand, and the code records the pushed request rather than the parameters presented. Without a reference the code records the presented request.""",
     "inputs histories fault_sequences", "every request and storage behaviour", "the tests exercise one reference; failing deletions and mixed parameters are not sampled",
     [AUT], ["retrieval and deletion of pushed requests"])
prop("C09", "The code session and the response are bound to this request", """
Every stored code session records the request's non-empty issuer and the authenticated non-empty subject, under a code freshly generated for that issuer. A successful authorization returns the stored code, the lifetime reported by storage, the issuer, and the state, client id, redirect URI and response mode of the recorded request; a failed one returns no code.""",
     "inputs fault_sequences", "every request and failure", "tests compare responses of a few fixed requests",
     [AUT], ["session construction", "response construction"])
prop("C10", "A device authorization starts pending, time limited and client bound", """
A device session is stored only for a looked-up client that registered the device grant, for the non-empty request issuer; it records that issuer, client, request, scope and audience, has no subject, is pending, expires in the future within half an hour, and uses freshly generated device and user codes. A success returns the stored codes, the lifetime reported by storage, the issuer and a polling interval of at least one second; an error returns no codes.""",
     "inputs fault_sequences", "every device authorization request and failure", "tests check a response with mocks, not the stored session",
     [DEV], ["device session construction"])
prop("C11", "A device session is approved once, in time, for the confirming user", """
A device session is only updated if it was found by the presented non-empty user code for the non-empty request issuer, is complete, pending and unexpired; the update marks it as validated for the confirming non-empty subject and leaves everything else unchanged. The approval never succeeds without having recorded this update.""",
     "inputs histories", "every session state and confirmation", "tests sample a few statuses",
     [DEV], ["status and expiry checks before approval"])
prop("C12", "Device tokens require a live, approved, matching device session", """
The token endpoint creates a token for the device grant only if the device code was found for the request's issuer, its session belongs to the authenticated client, is unexpired, approved and has a subject. The token carries the request's issuer and confirmation, the approving subject, the session's scope and audience and the authenticated client; refresh tokens require offline_access in the scope.""",
     "inputs histories", "every device session and token request", "tests sample a few session states",
     [TOK + "grant_device_code.go"], ["device session checks", "token construction"])
prop("C13", "An approved device code yields tokens only once", """
Before tokens are created for the device grant, the device session has been made unusable, so that a device code cannot be redeemed twice. A user code cannot be used again after its approval.""",
     "histories schedules", "every sequence of token requests with one device code", "tests redeem a code once",
     [TOK + "grant_device_code.go", DEV], ["consumption of the device session"])
prop("C14", "Refresh tokens are honoured only for their owner, active and unexpired", """
The refresh grant creates or revokes a token only if the presented value was found for the request's issuer, the found token is a refresh token with metadata, is active and unexpired, and was issued to the authenticated client.""",
     "inputs histories", "every stored token and request", "tests sample a few token states",
     [TOK + "grant_refresh_token.go"], ["stored token checks"])
prop("C15", "Refreshing preserves the grant and rotates safely", """
Every token created by the refresh grant has the issuer, subject, scope, audience and key confirmation of the presented refresh token, and is bound to the authenticated client. If a new refresh token is returned then the old one has been revoked successfully; the old one is never revoked, and no new one is created, without returning the replacement.""",
     "inputs histories fault_sequences", "every stored token, clock value and storage failure", "tests compare two fixed refreshes",
     [TOK + "grant_refresh_token.go"], ["token construction", "rotation"])
prop("C16", "Token exchange accepts only an active, unexpired access token", """
The token-exchange grant creates a token only if a non-empty subject token with the access token type was presented, found for the request's issuer, and is an active, unexpired access token with metadata.""",
     "inputs histories", "every stored token and request", "tests sample a few token states",
     [TOK + "grant_token_exchange.go"], ["subject token checks"])
prop("C17", "An exchanged token never exceeds its subject token", """
A token created by the token-exchange grant is an access token for the authenticated client with the subject, key confirmation and issuer of the subject token, exactly the requested scope (by default the subject token's), included in the subject token's scope, and at most one minute of life. If resources or audiences were requested, its audience is the one of a resource resolved for the request, otherwise the subject token's or none. A successful exchange reports the access token type as issued type, and the scope if it is not the subject token's.""",
     "inputs histories", "every scope, resource and audience request", "tests use one scope and one resource",
     [TOK + "grant_token_exchange.go"], ["scope inclusion", "audience resolution", "token construction"])
prop("C18", "Client credentials are limited to confidential clients acting as themselves", """
The client_credentials grant creates a token only for a looked-up client that is confidential or credentialed. The token is an access token whose subject and client are the client itself, with the request's issuer, scope, audience and confirmation, and no refresh token is returned.""",
     "inputs configurations", "every client and request", "tests sample a few client types",
     [TOK + "grant_client_credentials.go"], ["client type check", "token construction"])
prop("C19", "Every returned token was generated, is active and was persisted as returned", """
Every token that is stored is active, has a fresh random identifier of at least 8 characters and a non-empty value produced without error for it by the generator of its kind. Every token returned by the token endpoint is of the kind of its response field, distinct from the other one, and was stored successfully before, unchanged since. A successful request returns every token it stored, and always an access token unless its code session asked for no OpenID Connect scope.""",
     "inputs fault_sequences", "every grant, generator result and storage failure", "mocks check selected call sequences",
     [TOK + "generator.go", TOK + "service.go"], ["token generation before persistence"])
prop("C20", "Token lifetimes are bounded and anchored to the current time", """
Every created token has the current time as issue time, an expiry in the future at most one hour away for access tokens and seven days for refresh tokens, and a not-before time before the expiry and at most one minute after the issue time.""",
     "inputs configurations", "every grant and clock value", "tests fix the clock and compare a few constants",
     [TOK + "generator.go", TOK + "grant_token_exchange.go"], ["metadata construction"])
prop("C21", "Grants are dispatched by type for registered and authenticated clients", """
The token endpoint touches storage or creates tokens only for an authenticated client, a non-empty issuer that is a URL, and a client record looked up by the authenticated client's id that registered the requested grant type; the storage and operations of a grant are used only for its own grant type and for the request's issuer. Every advertised grant type has an implementation.""",
     "inputs configurations", "every token request and client registration", "tests sample single mismatches",
     [TOK + "service.go", TOK + "validator.go"], ["grant dispatch", "client lookup"])
prop("C22", "Introspection discloses only the presented token, to an authenticated client", """
The token store is queried for introspection only after the authenticated client was looked up, with exactly the presented value and issuer. A success returns the stored token, or, only when storage reports it does not exist, an unknown token without any metadata; with an error no token is returned.""",
     "inputs fault_sequences", "every introspection request and storage answer", "tests sample a few answers of mocks",
     [TOK + "introspection.go"], ["client lookup", "token lookup"])
prop("C23", "Revocation affects only the presented token of the requesting client", """
A token is revoked or deleted by the revocation operation only after the authenticated client was looked up and only if it was found by the presented value for the request's issuer and was issued to that client. The operation never succeeds without having revoked the token.""",
     "inputs histories fault_sequences", "every request, stored token and storage failure", "tests sample one client",
     [TOK + "revoke.go"], ["ownership check before revocation"])
prop("C25", "A service operation fails exactly when it returns a protocol error", """
Every token, introspection, revocation, authorization, pushed request and device operation returns a response object; if the operation returns no error then the response carries no protocol error, and if it returns an error then the response carries a protocol error with a code and no token, authorization code, request URI, device code or user code.""",
     "inputs fault_sequences", "every request and every failure of every collaborator", "tests sample some failures of each operation",
     [TOK + "service.go", TOK + "introspection.go", TOK + "revoke.go", AUT, DEV], ["error results of the service operations"])
prop("C26", "Storage and generator failures are never swallowed or misreported", """
A token, introspection, revocation, authorization, pushed request, device or client authentication operation never succeeds if a storage or generator call it made failed, except introspection of a token that does not exist. The failure of a generator or of a storage write, and a read failure the operation knows not to be a missing entry, are reported as server_error; a missing entry is not reported as server_error.""",
     "fault_sequences", "every failure of every collaborator at every point of every operation", "mocks fail some calls with one error value",
     [TOK, AUT, DEV, "server/clientauthentication"], ["error handling after each collaborator call"])
prop("C27", "private_key_jwt accepts only a valid assertion of a registered client", """
Client authentication by private_key_jwt succeeds only for the JWT bearer assertion type with an assertion in one of the allowed algorithms whose iss, sub, aud and jti are present, whose iss equals sub, which has not expired, and whose signature was verified with a non-encryption key registered by the client named by iss; that client is returned. Every failure returns no client and a protocol error.""",
     "inputs fault_sequences", "every assertion, key set and storage answer", "tests sample single missing claims",
     ["server/clientauthentication/private_key_jwt.go"], ["assertion validation"])
prop("C28", "Client attestation requires a valid attestation and proof of possession", """
Attestation based client authentication succeeds only for its assertion type with an attestation in an allowed algorithm whose iss and sub are present, that is within its validity period, carries a confirmation key, and whose signature was verified with a non-encryption key registered by the client named by its iss; and with a proof of possession signed by the confirmation key, within its validity period, with iss, aud and jti present and iss equal to the attestation's sub. The client named by that sub is returned; every failure returns no client and a protocol error.""",
     "inputs fault_sequences", "every assertion, key set and storage answer", "tests sample single missing claims",
     ["server/clientauthentication/client_attestation.go"], ["attestation and proof validation"])
prop("C29", "Client assertions are addressed to this server and accepted once", """
Client authentication with a signed assertion succeeds only if the audience of the assertion designates this server, and an assertion identifier is accepted only once while the assertion is valid.""",
     "inputs histories", "every assertion and sequence of authentications", "tests present one assertion once with the expected audience",
     ["server/clientauthentication/private_key_jwt.go", "server/clientauthentication/client_attestation.go"], ["audience and replay checks"])
prop("C30", "A DPoP proof is accepted only when fresh, typed and for this request", """
Verification of a DPoP proof succeeds only for a non-empty method, URL and proof if the proof has the DPoP type, is signed by the key it embeds, has exactly the request's method and URL, a non-empty identifier and an issue time within one minute of the clock in either direction. It then returns the base64url SHA-256 thumbprint of that key; on failure it returns no confirmation.""",
     "inputs", "every proof and request", "tests sample single defects",
     ["sdk/dpop/verifier.go", "sdk/token/jwt/embedded_verifier.go", "sdk/token/jwt/token_adapter.go"], ["proof header and claim validation", "embedded key verification"])
prop("C31", "A DPoP proof identifier is accepted once", """
Verification of a DPoP proof succeeds only after the replay store reported that the proof was not seen and then recorded it successfully under the same key; the key depends on the proof's identifier only and separates different identifiers.""",
     "histories fault_sequences", "every sequence of proofs and every storage answer", "tests replay one proof against a mock",
     ["sdk/dpop/verifier.go"], ["replay cache lookup and registration"])
prop("C32", "A DPoP proof is bound to the access token and its confirmation", """
If a DPoP proof is verified together with an access token, verification succeeds only if the proof carries the base64url SHA-256 hash of that token; if it is verified against a token confirmation, only if the proof key's thumbprint equals the confirmation. Both bindings apply when both are given.""",
     "inputs configurations", "every proof, token, confirmation and combination of options", "tests sample mismatches one at a time",
     ["sdk/dpop/verifier.go", "sdk/dpop/options.go"], ["access token hash and confirmation comparison"])
prop("C33", "A DPoP prover emits a fresh proof for exactly the request", """
Every DPoP proof produced has a fresh random identifier of at least 16 characters, the requested method, the requested URL reduced to scheme, host and path, the current time as issue time, and the base64url SHA-256 hash of the access token exactly when a token was given. The result is the signer's output, and on error nothing is returned.""",
     "inputs configurations", "every method, URL and option", "tests inspect no emitted claims",
     ["sdk/dpop/prover.go", "sdk/dpop/url.go"], ["claim construction before signing"])
prop("C24", "A signed introspection response tells the truth about the token", """
A signed introspection response reports a token as active only if its status is active, it is unexpired and already valid, and then reports exactly the token's issuer, audience, times, client, scope, subject and identifier. An unusable token is reported as inactive with nothing else disclosed about it, and a usable one is never reported as inactive.""",
     "inputs", "every token state and clock value", "tests sample one active and one inactive token",
     ["sdk/token/introspection.go"], ["claim construction", "activity decision"])
prop("C34", "A key set validates only signatures made by one of its signing keys", """
Validating a token or a signature against a key set succeeds only if both are present and the signature was verified with a key of that set that is not an encryption key; otherwise an error is returned.""",
     "inputs", "every key set and signature", "tests use sets with one key",
     ["sdk/jwk/signature.go"], ["key iteration"])
prop("C35", "Token verifiers use only configured algorithms and the right keys", """
JWT verifiers accept only tokens in the configured algorithms. Claims are returned only if the signature was verified with a non-encryption key of the configured set (with the named key if the token names one), or, for the embedded key verifier, with the key embedded in the token itself whose algorithm, when verifying, equals the token's.""",
     "inputs configurations", "every token, key set and algorithm list", "tests use a few fixed tokens",
     ["sdk/token/jwt/verifier.go", "sdk/token/jwt/embedded_verifier.go"], ["algorithm restriction", "key selection"])
prop("C36", "Signers sign the given claims with an identifiable key of the right kind", """
A JWT or CWT signer returns a token only if the key provider returned a key with an identifier and no error, and the token is signed with that key and the configured algorithm; on error no token is returned. JWT headers name the key, and the key is embedded exactly in DPoP proofs; CWT signers refuse public keys, sign the encoded claims once in the context of the library, name the key and the algorithm, and return URL-safe text.""",
     "inputs configurations fault_sequences", "every key, algorithm and claims", "tests use a few fixed keys",
     ["sdk/token/jwt/signer.go", "sdk/token/jwt/builders.go", "sdk/token/cwt/signer.go", "sdk/token/cwt/builders.go"], ["key provision", "header construction"])
prop("C37", "Every signed object carries the type of its purpose", """
Every token a signer produces carries the type header of its purpose (at, rt, oauth-authz-req, jarm, dpop, client-assertion, token-introspection, oauth-authorization-server) with the suffix of its format, and no two purposes share a type. The decoders of request objects, JARM responses and DPoP proofs require exactly the type their signer emits, and signers report the content type of their format.""",
     "programs inputs", "every signer and every key and claims given to it", "tests use single signers and never compare the types of signers and decoders",
     ["sdk/token/jwt/builders.go", "sdk/token/cwt/builders.go", "sdk/jarm/api.go", "sdk/jwsreq/api.go", "sdk/dpop/api.go"], ["type headers of signers and decoders"])
prop("C38", "Token generators emit only complete, bounded tokens", """
The access token, refresh token and client assertion generators sign a token only if it has an identifier, issuer, subject, audience, issue and expiry time, was not issued in the future and expires after its issue, by at most two hours (access tokens and assertions) or fourteen days (refresh tokens); access and refresh tokens also need a URL issuer, client, scope and a not-before time between issue and expiry, and assertions a URL audience and a subject equal to the issuer. The signed claims are exactly the token's, including its key confirmation, under their registered JSON names and CWT keys, and the result is the signer's output.""",
     "inputs", "every token metadata and clock value", "tests sample single missing fields and inspect no signed claims",
     ["sdk/token/access_token.go", "sdk/token/refresh_token.go", "sdk/token/client_assertion.go", "sdk/token/helpers.go"], ["metadata validation", "claim construction"])
prop("C39", "A JARM response states issuer, audience, expiry, code and state", """
An encoded authorization response without an error names the given non-empty issuer, the client as audience, an expiry at its positive lifetime from now, and the non-empty code and state of the response. An error response carries the error, its description and the state, and never a code; the result is the signer's output and on error nothing is returned.""",
     "inputs", "every authorization response and issuer", "tests sample single missing fields",
     ["sdk/jarm/encoder.go"], ["claim construction"])
prop("C40", "A JARM response is accepted only typed, verified, addressed and fresh", """
Decoding a JARM response returns a code only if the response has the JARM type, its claims were verified by the configured verifier, it carries no error, its issuer is the configured one, its audience is the given non-empty one and it has not expired; the returned code, state and issuer are those of the response. A response with an error yields that error and no code.""",
     "inputs", "every response, audience and clock value", "tests sample single defects",
     ["sdk/jarm/decoder.go"], ["response validation"])
prop("C41", "Request objects are exactly the signed authorization request", """
Encoding signs exactly the parameters given in the authorization request, under their registered names, with the configured signer and returns its output. Decoding returns a request only if a non-empty request object was verified by the configured verifier, and the request is exactly the JSON form of all of its claims.""",
     "inputs", "every authorization request and request object", "tests compare mocks for a single request",
     ["sdk/jwsreq/encoder.go", "sdk/jwsreq/decoder.go"], ["conversions around signing and verification"])
prop("C42", "Encrypted tokens are signed first and never returned in clear", """
The encrypting serializer encrypts exactly the token its signer produced from the claims, labelled with the signer's content type and bound to its purpose by associated data, and returns exactly the result of the encryption. If signing or encryption fails nothing is returned.""",
     "inputs fault_sequences", "every claims object and every failure of signer and encrypter", "no test covers the encrypting serializer",
     ["sdk/token/encrypted.go"], ["sign then encrypt"])
MEM = "server/storage/inmemory/"
prop("C49", "In-memory storage separates issuers and hashes secrets", """
Every entry of the in-memory storage of authorization codes, pushed requests, device sessions and tokens is addressed by a key determined by issuer and identifier that different pairs of them cannot share, and all operations of a storage address the same entry alike. Codes, request URIs, device and user codes and token values occur in keys, and token values in stored tokens, only as cryptographic hashes.""",
     "inputs histories", "every issuer and identifier", "the storage has no tests; collisions need particular pairs of issuer and identifier",
     [MEM + "token.go", MEM + "authorization_code_session.go", MEM + "authorization_request.go", MEM + "device_code_session.go"], ["key derivation"],
     "abstract interpretation of the SSA form to key terms, agreement of the terms across operations")
prop("C50", "In-memory storage returns what was stored, until deleted or revoked", """
A successful registration has stored the given session under its identifiers (device sessions under the user code and the device code), a created token is stored unaltered except for its value, as a copy, by identifier and by value, and a successful deletion has removed the entry. Token deletion and revocation succeed only for a token found by the identifier and update both entries, a revoked token differing only in its status; lookups change nothing and return tokens and device sessions as copies, and entries are removed only by their deletion or expiration. A client is registered under a fresh identifier, which is assigned to it and returned, and otherwise unaltered.""",
     "histories inputs", "every sequence of storage operations", "the storage has no tests",
     [MEM + "token.go", MEM + "device_code_session.go", MEM + "authorization_code_session.go", MEM + "authorization_request.go", MEM + "client.go"], ["container accesses of every operation"])
prop("C51", "In-memory storage is race free and consumes entries once", """
The in-memory storage accesses its plain maps only under its lock (unless they are never written), takes and releases its own locks in balance on every path, and deletes an authorization code or pushed request successfully only if it found it in the same critical section, so that of concurrent deletions one succeeds. A pending device session is approved at most once, and a proof identifier is registered successfully only if it was not known.""",
     "schedules histories", "every interleaving of storage operations", "races need a particular interleaving; the storage has no tests",
     [MEM + "authorization_code_session.go", MEM + "authorization_request.go", MEM + "device_code_session.go", MEM + "client.go", MEM + "proof.go", MEM + "resource.go"], ["locks around check and use"],
     "path-sensitive lockset analysis and critical-section ordering on the SSA form")
prop("C52", "Stored state lives as long as advertised and needed", """
The in-memory storage keeps an authorization code, pushed request or device session exactly as long as the lifetime it reports for it, under every identifier, an approved device session no longer than a pending one, and removes what has expired. It remembers a proof identifier at least as long as the proof can be acceptable.""",
     "histories", "every lifetime used by the storage", "tests do not wait for entries to expire",
     [MEM + "proof.go", MEM + "authorization_code_session.go", MEM + "authorization_request.go", MEM + "device_code_session.go"], ["lifetimes of the caches"])
prop("C53", "Lookups report missing entries as such", """
A lookup of the in-memory storage returns the entry stored under the requested identifier if there is one, and otherwise nothing and the not-found error; a client found by name has that name. Deleting or revoking a token, code or pushed request fails only with the not-found error, and a proof identifier is reported as seen exactly if it is registered.""",
     "inputs histories", "every identifier and content of the storage", "the storage has no tests",
     [MEM], ["answers of the lookups"])
prop("C43", "Generated identifiers are unguessable, well formed and accepted back", """
Authorization codes, device codes, request URIs and opaque tokens carry at least 128 bits, client identifiers at least 80 bits and device user codes at least 29 bits drawn from a cryptographic random source, and user codes consist of hyphen-separated groups of at most four consonants or four digits. A generator's own validator accepts, up to surrounding blanks, every value it generates and refuses values of another length (codes) or form (request URIs); no part of the library draws identifiers from a predictable generator.""",
     "inputs histories", "every generated value and every value presented to a validator", "unpredictability cannot be observed in samples, and the accepted set of a validator is infinite",
     ["sdk/generator/authorization_code.go", "sdk/generator/device_code.go", "sdk/generator/device_user_code.go", "sdk/generator/request_uri.go", "sdk/generator/client.go", "sdk/token/token.go"], ["random sources and formats"],
     "abstract interpretation of the SSA form to text terms over random sources, entropy and pattern containment computed on the terms")
prop("C44", "Verifiable identifiers are authenticated under the secret key", """
Verification or extraction succeeds only if the token has the fixed format, its number encodings fit their sizes, and its MAC, under a key derived from the secret with the token's nonce, covers the purpose label, the complete prefix and the 16 extracted bytes; a failed extraction returns nothing. Generation takes a new identifier and a new random nonce of at least 96 bits, computes the same MAC, pads so that its result always has the accepted format, and refuses prefixes containing the separator. Access, refresh and phantom tokens have their own distinct prefixes.""",
     "inputs", "every token, secret, prefix and identifier", "a forged, truncated or re-prefixed token is a particular input; short encodings occur once in many thousand generations",
     ["sdk/token/verifiable/uuid.go", "sdk/token/verifiable/helpers.go", "sdk/token/verifiable/verifiable.go", "sdk/token/verifiable/options.go"], ["MAC computation", "base 62 encoding"],
     "abstract interpretation of the SSA form, agreement of MAC terms between generation and verification")
prop("C45", "Pairwise subjects are keyed, sector specific pseudonyms", """
A pairwise identifier is the unpadded base64url form of a keyed cryptographic hash, under the complete salt of at least 16 bytes, of the complete sector identifier and the complete subject without surrounding blanks; different pairs of sector and subject do not share the hashed message. A shorter salt or a blank subject is an error, and an error yields no identifier.""",
     "inputs", "every salt, sector and subject", "tests sample empty sectors and one subject",
     ["sdk/pairwise/hash.go"], ["keyed hash"])
prop("C46", "Secret comparisons are exact and in constant time", """
The comparison helpers report true exactly for equal arguments. They, the MAC check of verifiable identifiers and the challenge check of the PKCE helper compare secret values only with constant-time primitives.""",
     "inputs", "every pair of values", "timing is not observable in tests, and equality on all inputs cannot be sampled",
     ["sdk/types/compare.go", "sdk/token/verifiable/uuid.go", "sdk/pkce/verifier.go"], ["constant-time comparison"],
     "abstract interpretation of the SSA form with an obligation at every comparison of a secret-derived term")
prop("C47", "Shared random generators are serialised and seeded from the system", """
Every operation of the locked generator performs the operation of the same name exactly once on its own generator, with the given arguments and returning its results, while holding its lock, and releases the lock. The package-level functions use one shared locked generator seeded with eight bytes of the system's cryptographic generator.""",
     "schedules", "every operation and interleaving", "data races need particular interleavings; most operations have no test",
     ["sdk/randomness/locked_rand.go", "sdk/randomness/global.go", "sdk/randomness/source.go"], ["lock around every operation"],
     "lockset analysis of every method on the SSA form")
prop("C48", "The PKCE helper makes and checks S256 challenges", """
A generated code verifier has 43 to 128 unreserved characters and at least 256 random bits, and its challenge is the unpadded base64url form of the SHA-256 hash of the verifier; on error both are empty. Validation is true exactly if the non-blank challenge decodes to the SHA-256 hash of the non-blank verifier, and an invalid or blank argument is an error with a false result.""",
     "inputs", "every verifier and challenge", "tests sample two challenges",
     ["sdk/pkce/verifier.go"], ["S256 transformation"])
prop("C54", "Protocol errors carry the registered code and the caller's state", """
Every protocol error built by the library carries the error code registered for it (RFC 6749, 6750, 7591, 8628, 8707, 9449, 9470) and a non-empty description, which a caller's code or description replaces. A state, error URI or resource that is given is returned exactly, one that is not given or empty is absent, in whatever order the parts are set.""",
     "inputs", "every error, description, state and order of the setters", "tests assert a few codes through the services; a swapped code or a lost state shows only for that error",
     ["sdk/rfcerrors/builder.go", "sdk/rfcerrors/errors.go"], ["error table and builder"],
     "abstract interpretation of the SSA form, comparison of the built messages with the table of registered codes")
prop("C55", "The strict profile allows exactly its grants, responses and authentication", """
The strict profile allows web applications only the authorization code grant, native applications this and refresh tokens, devices the device code grant and refresh tokens, and services only client credentials, with the code (services: token) response type. Every kind authenticates with private_key_jwt only and has no default scopes, and browser based and unknown kinds of application are not supported.""",
     "inputs configurations", "every application type", "no test reads the profile",
     ["server/profile/profile_strict.go", "server/profile/server.go", "server/profile/client.go"], ["profile table"],
     "abstract interpretation of the SSA form, the answers read as sets")
prop("C56", "List membership, addition, removal and nil tests are exact", """
Membership in a list of strings is true exactly if an element equals the item regardless of case; the any-of form holds exactly if one of the given items is a member, the all-of form exactly if there are items and all are members. Adding appends the item exactly if it is not a member, and removing keeps exactly the elements that differ from the item, in order. The nil test is true exactly for an absent value and an absent pointer.""",
     "inputs", "every list, item and value", "tests use lists of a few elements without repetitions",
     ["sdk/types/string_array.go", "sdk/types/null.go"], ["list helpers used by all validations"],
     "abstract interpretation of the SSA form with facts quantified over list elements, loop analysis")
prop("C57", "The HTTP client trusts only what its issuer answered", """
The HTTP client uses a metadata document, key set, token or introspection answer only if it came with status 200 from the address it belongs to (the well-known location of the issuer, and the endpoints named by the metadata), read up to a limit and decoded without error; every failure yields an error and no result, and response bodies are always closed. A token is reported active exactly if the introspection response says so, and its metadata and confirmation are those of the response. Keys are reused only until their announced expiry and never accepted empty or expired, the metadata must name the issuer asked for, and client assertions are signed with the client's key, name client and server, carry a fresh identifier and are issued now and expire within a minute.""",
     "inputs fault_sequences histories", "every response, response header and transport failure, and every sequence of requests", "tests serve a handful of responses from one well-behaved server",
     ["client/http.go", "client/api.go"], ["response handling", "key set cache", "client assertion"])
prop("C58", "Protocol values are the registered ones", """
The grant types, response types and modes, authentication methods, assertion and token types, scopes, prompts, challenge methods and subject types used by the library have exactly the registered values, and no two of one kind coincide.""",
     "inputs", "every message that names such a value", "tests and code share the constants, so a wrong value is consistent everywhere except with other implementations",
     ["oidc/const.go"], ["protocol constants"], "constant evaluation on the type-checked program, comparison with the table of registered values")
prop("C59", "Valid requests, tokens and values are served", """
Every operation of the server, the client and the library that can fail also succeeds for some input without any of its calls failing, and every test has both answers. In particular each of the five grants, the code and token response types, all seven response modes, the four prompts, and DPoP proofs for all nine HTTP methods are served, as are states of 32, nonces of 8, challenges of 43 and verifiers of 43 to 128 characters.""",
     "inputs", "every exported operation", "most tests assert failures of mocked collaborators; an operation that rejects everything fails no test where the success is not tested",
     ["server", "sdk", "client"], ["success paths of every operation"],
     "abstract interpretation of the SSA form: existence of a success path, also under each registered value")
prop("C62", "The URL of a proof is that of the request", """
The URL a server compares a DPoP proof with consists of the scheme, the host and the path of the request, and nothing else. The scheme is the one announced by the forwarding proxy, otherwise https exactly for a connection with TLS.""",
     "inputs", "every request", "no test reads the URL of a request with TLS or behind a proxy",
     ["sdk/dpop/url.go"], ["clean URL"])
prop("C60", "No request, token or message crashes the process", """
No absent, empty or malformed request, parameter, header, token, key or message makes an exported operation of the server, the client or the library dereference an absent value, index or slice out of range, fail a type assertion, divide by zero, write to a nil map or panic in another way. This assumes that collaborators return a value whenever they return no error; entities handed to storage are complete at every call.""",
     "inputs", "every exported operation and every argument", "tests sample a few absent fields; each crash needs its own combination of absent and present values",
     ["server", "sdk", "client"], ["guards in front of dereferences, indices and assertions"],
     "interprocedural abstract interpretation of the SSA form from every exported operation, with an obligation at every instruction that can panic")
prop("C61", "Shared objects are used by several goroutines without races", """
Every object made by the library's constructors can be used by several goroutines: whatever an operation writes outside of its own call (fields of the object, what they refer to, package variables) is only accessed under one common lock. Locks are released on every path and never taken while held, and no operation leaves work running after it returned.""",
     "schedules", "every pair of concurrent operations on one object and every path", "races need particular interleavings, and the tests run no operations concurrently",
     ["server", "sdk", "client"], ["locks of the client, the storage and the random generators; stateless services"],
     "interprocedural lockset analysis on the SSA form of every exported operation")
prop("C63", "No operation succeeds after one of its steps failed", """
No operation of the server, the client or the library reports success if a call it made on the way returned an error, and none completes without looking at such an error. The only exceptions are a signature that verifies with another one of the candidate keys, and introspection of an unknown token, which is reported as inactive.""",
     "fault_sequences", "every exported operation, every path, every fallible call on it", "most failures of parsers, signers, encoders and random sources cannot be provoked by a test",
     ["server", "sdk", "client"], ["error handling of all operations"],
     "interprocedural abstract interpretation of the SSA form that collects the error results of all calls on each path")
prop("C64", "An authorization request is stored as it was made", """
Every part of an authorization request that is stored, as a code session or as a pushed request, has the value it was received with, apart from the scope. The generic jwt response mode is replaced by query.jwt for codes and by fragment.jwt for tokens and never stored, and no other response mode is changed.""",
     "inputs", "every authorization request and every pushed request", "tests compare a few stored requests whose parts they set",
     ["server/services/authorization"], ["request persistence"])
prop("C65", "A valid request is refused for no unstated reason", """
An operation of the server, the client or the library whose calls all succeed refuses its input only because a required value is absent, empty or of the wrong length, unregistered for the client, not the expected one, foreign to the client, already used, or outside of its validity period. Optional values never make a request fail, and proofs up to ten seconds off, access tokens for an hour and refresh tokens for a week are always possible.""",
     "inputs", "every request, token and proof, every state of the storage", "tests present one or two valid requests per operation; a condition too many refuses others",
     ["server", "sdk", "client/http.go"], ["validation of requests, tokens, proofs and answers"],
     "abstract interpretation of the SSA form: every failing path must contradict one of the conditions of a valid input")
prop("C66", "A token is usable exactly within its validity period", """
A token is usable only if it exists, has metadata, has not expired and its not-before time has been reached. A token within that period is always usable.""",
     "inputs", "every token and every time", "tests cannot wait, and use a handful of offsets",
     ["sdk/token/helpers.go"], ["usability test"])
prop("C67", "The authenticated client is carried by the context", """
The client put into a context is the one read back from it and from contexts derived from it, under a key nobody outside of the package can make; from other contexts no client is returned and its absence is told. The new context descends from the given one.""",
     "inputs", "every context and every client", "tests use one context",
     ["server/clientauthentication/context.go"], ["context key and value"])
prop("C68", "Messages are written to and read from JSON completely", """
Every message type is written to JSON from the message itself, with the names of the protocol definition, including fields that are zero, and with enumerated values by name. It is read from JSON into the message itself, unknown members are ignored, and a decoding failure is reported.""",
     "inputs", "every message of every type", "tests encode a few messages, mostly requests",
     ["api/oidc"], ["JSON encoding and decoding of messages"])
prop("C69", "The caller's context reaches every collaborator", """
Everything an operation of the server, the client or the library does on behalf of a caller, such as reading or writing the storage, generating and verifying tokens, signing, or sending a request, is done under the context it was called with or under one derived from it. So the deadline, the cancellation and the values of the caller's context hold for all of it.""",
     "inputs", "every exported operation with a context and every call on every path of it", "the tests call operations with a background context and mocks that accept any context",
     ["server", "sdk", "client"], ["contexts passed to storage, generators, signers, verifiers and HTTP requests"],
     "interprocedural abstract interpretation of the SSA form: the context argument of every call must be derived from the operation's")
prop("C70", "A parsed token reports its own header and verified claims", """
The type, key identifier, algorithm, embedded public key and key thumbprint a parsed token reports are those standing in its header, the thumbprint being the base64url SHA-256 one of the embedded key, and a token without them reports an error. Its claims are handed out only after its signature was verified with exactly the key the caller gave.""",
     "inputs", "every parsed token and every key", "tests parse a few well-formed tokens and read single header values",
     ["sdk/token/jwt"], ["parsed token accessors"])
