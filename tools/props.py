"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/oidcrp/"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note, state=None,
         technique="property-based testing (Hypothesis)"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, level_note=level_note, state=state or [],
                  technique=technique))


prop(
    "C01", "A login yields an identity only from an ID Token valid for that login",
    "Completing a login accepts an ID Token, whether it arrives in the redirect or from the token endpoint, only if it is signed "
    "by a key of the provider that login was started with (unsigned only where the client explicitly registered for that) using the algorithm the client registered if it registered one, names that provider as issuer, "
    "names this client in its audience (and as authorized party where one is present or there are several audiences), is within its validity period "
    "allowing for the configured clock skew, carries the nonce of that very login and, when the redirect brought one before, is about the same user. "
    "In the redirect, an accompanying code or access token must match the hash in the ID Token. "
    "Every ID Token that satisfies this is accepted and the reported claims are exactly the signed ones.",
    ["inputs", "configurations"],
    "for all ID Token claim sets, signing keys/algorithms, response types, clock skews and tampering of the compact serialization",
    "Tests finalize a handful of good tokens and one or two bad ones; they never combine claim mutations, key/algorithm choice, response type and skew, and a check that is dropped for one flow only stays unseen.",
    [S + "oidc/authorization.py", S + "oidc/access_token.py", S + "service.py", S + "rp_handler.py"],
    [{"name": "verification arguments for redirect and token responses", "where": S + "oidc/authorization.py gather_verify_arguments, " + S + "oidc/access_token.py gather_verify_arguments"},
     {"name": "nonce comparison", "where": S + "oidc/authorization.py post_parse_response; " + S + "oidc/access_token.py update_service_context"}],
    ["result or exception of RPHandler.finalize / get_tokens", "stored session information"],
    "Generated search against an independent acceptance predicate computed from the generated claims; trusts cryptojwt for making the test tokens.")

prop(
    "C02", "An authorization response only affects the login it belongs to",
    "An authorization response is accepted only when it carries the state of a login that was begun, and not cleared, with the very provider it is presented for, and any issuer or client "
    "identifier it carries matches that provider and client. "
    "A response that is an error, is refused, or fails verification yields no tokens or identity and leaves the stored information of every login as it was, except for a refusal that comes from a later step of the same login. "
    "Values in the response that look like the library's own verified results are never trusted.",
    ["inputs", "histories", "configurations"],
    "for all response parameter sets, all providers/handlers with several open logins and all tamperings (foreign state, mix-up, iss/client_id, forged internal keys)",
    "Tests present well-formed responses to the right provider; they do not cross providers, replay after clear, or diff the whole session store after a refusal.",
    [S + "rp_handler.py", S + "oidc/authorization.py", S + "state_interface.py"],
    [{"name": "state/issuer comparison", "where": S + "rp_handler.py finalize_auth"},
     {"name": "response verification", "where": S + "service.py parse_response"}],
    ["RPHandler.finalize result/exception", "dump of the session store before/after"],
    "Generated responses over several providers and sessions; oracle is a table of open logins plus a byte-for-byte comparison of the stores.")

prop(
    "C03", "Concurrent logins at several providers never interfere",
    "For any interleaving of starting, completing, refreshing, reading, logging out and clearing logins over any number of providers and users, each login's stored request, tokens, identity, user info and provider "
    "are exactly what that login's own exchanges produced, and clearing one login removes it and nothing else. "
    "Looking a login up by its state, nonce, subject, session id or logout state gives the login it was most recently recorded for.",
    ["histories", "schedules"],
    "for all operation sequences over several providers, users and open logins",
    "Unit tests run one login at a time against one provider; interference needs at least two sessions and a particular order.",
    [S + "rp_handler.py", S + "state_interface.py", S + "service_context.py"],
    [{"name": "per-login record keyed by state", "where": S + "state_interface.py"},
     {"name": "provider -> client table", "where": S + "rp_handler.py client_setup/state2issuer"}],
    ["RPHandler public methods", "requests seen by simulated providers"],
    "Model-based generated histories over three simulated providers; model is a dictionary of logins.",
    technique="stateful property-based testing: generated operation histories against a model (Hypothesis)")

prop(
    "C04", "The session store behaves as a map with consistent reverse lookups",
    "After any sequence of creating, storing into, reading, cross-referencing and removing session records, the store answers every query as a plain map from key to record would, where the latest value stored wins. "
    "Cross references resolve to the session they were last bound to, collecting parameters over several records lets the later record win, and removing a session removes that session with its own references and leaves every other session and reference usable.",
    ["histories", "inputs"],
    "for all operation sequences on the store with colliding keys, subjects and references",
    "Tests store and read one or two items; removal with shared subjects, repeated references or none at all is not exercised.",
    [S + "state_interface.py"],
    [{"name": "record and reverse reference maintenance", "where": S + "state_interface.py store_item/store_x2state/remove_state"}],
    ["StateInterface methods"],
    "Model-based: a dictionary model is compared after every step.",
    technique="stateful property-based testing: generated operation histories against a model (Hypothesis)")

prop(
    "C05", "User info is accepted only for the authenticated subject and named claims",
    "User info for a login that has an ID Token is accepted and stored only if its subject equals the ID Token's subject, and a signed user info response only if its signature verifies with the provider's keys. "
    "Claims gathered from aggregated or distributed sources add exactly the claims the response attributes to that source, never others, and unverifiable sources add nothing. "
    "Otherwise the caller receives exactly the claims the provider returned.",
    ["inputs", "configurations"],
    "for all user info claim sets, content types, signatures and claim source layouts",
    "Tests use a fixed response with the right subject and one aggregated example; mismatching subjects across flows and extra claims in sources are not sampled.",
    [S + "oidc/userinfo.py", S + "oidc/__init__.py"],
    [{"name": "subject comparison and aggregated claims", "where": S + "oidc/userinfo.py post_parse_response"},
     {"name": "distributed claims", "where": S + "oidc/__init__.py fetch_distributed_claims"}],
    ["RPHandler.get_user_info/finalize", "RP.fetch_distributed_claims"],
    "Generated responses; oracle computed from the generated claims and sources.")

prop(
    "C06", "The access token handed out for a login is a current one",
    "Asking for a valid access token considers the tokens most recently received for that login at the redirect, from the token endpoint and by a refresh, and returns an unexpired one: one without stated lifetime if there is one, otherwise the one that lasts longest, together with its absolute expiry (receipt time plus lifetime); it fails if all have expired. "
    "A login counts as actively authenticated exactly while its most recent ID Token has not expired.",
    ["histories", "inputs"],
    "for all combinations of tokens and lifetimes received from redirect, token endpoint and refresh",
    "Tests use one response with a positive lifetime; expired, missing, and multiple-source lifetimes and their order are not combined.",
    [S + "rp_handler.py", S + "oidc/authorization.py", S + "oidc/access_token.py", S + "oauth2/refresh_access_token.py"],
    [{"name": "expiry stamping", "where": "update_service_context of authorization, access token and refresh services"},
     {"name": "selection", "where": S + "rp_handler.py get_valid_access_token/has_active_authentication"}],
    ["RPHandler.get_valid_access_token, has_active_authentication"],
    "Generated token histories; oracle is a list of issued tokens with absolute expiry.")

prop(
    "C07", "Token, refresh and user info requests carry the login's own material",
    "The token request of a login carries exactly the code that login's redirect returned, the redirect URI its authorization request used, the authorization code grant type and the client's authentication by the configured method; a refresh request carries the most recently received refresh token of that login and the requested scope; "
    "a user info request carries that login's most recently received access token. "
    "Each request goes to the endpoint the login's provider published, with the HTTP method, content type and body encoding the protocol prescribes, and a refresh that returns no new refresh token keeps the previous one usable.",
    ["inputs", "histories", "configurations"],
    "for all codes, tokens, scopes, redirect URIs, client identifiers/secrets and sequences of refreshes",
    "Tests check one request per service with fixed ASCII values and one session.",
    [S + "rp_handler.py", S + "oauth2/access_token.py", S + "oauth2/refresh_access_token.py", S + "oidc/userinfo.py", S + "service.py", S + "util.py"],
    [{"name": "collecting request arguments from the session", "where": S + "oauth2/access_token.py oauth_pre_construct; " + S + "oauth2/refresh_access_token.py"},
     {"name": "request serialisation", "where": S + "service.py get_request_parameters"}],
    ["HTTP requests as seen by the simulated provider"],
    "Generated logins against a recording provider that decodes requests with the standard library.")

prop(
    "C08", "PKCE binds every token request to its own authorization request",
    "With the PKCE add-on, every authorization request carries a challenge that equals the configured hash of the verifier that the token request of that same login later sends, and the stated method. "
    "Verifiers use only the unreserved alphabet, have the configured length, are fresh for every login, and are never disclosed in the authorization request; an unsupported method is refused.",
    ["inputs", "histories", "configurations"],
    "for all verifier lengths, methods and interleavings of logins",
    "Tests check a single login with one method.",
    [S + "oauth2/add_on/pkce.py", S + "util.py"],
    [{"name": "challenge/verifier", "where": S + "oauth2/add_on/pkce.py add_code_challenge/add_code_verifier"}],
    ["authorization URL and token request"],
    "Oracle recomputes the challenge from the verifier with hashlib/base64 over interleaved sessions.")

prop(
    "C09", "Client authentication proves the client by its method and leaks nothing else",
    "For each authentication method, an authorization server following the specification can recover from the request exactly this client's identity: basic and post deliver exactly its id and secret, the signed-assertion methods deliver a short-lived, fresh, one-audience assertion issued by and about the client that verifies only with the registered secret or key and algorithm, and bearer methods deliver exactly the chosen token. "
    "The client secret appears in a request only for the methods that are defined to send it, and an unknown method is refused.",
    ["inputs", "configurations"],
    "for all client identifiers, secrets (any unicode), tokens, endpoints, algorithms and request types",
    "Tests use one ASCII id/secret; escaping, alphabet dependent encodings, missing registration fields and algorithm selection are not sampled.",
    [S + "client_auth.py"],
    [{"name": "authentication methods", "where": S + "client_auth.py"}],
    ["request and headers produced by the services"],
    "Oracle decodes requests with the standard library / cryptojwt as a server would.")

prop(
    "C10", "DPoP proofs are valid for exactly the request they accompany",
    "With the DPoP add-on, every token and user info request to a provider that supports it carries one proof of the right type that verifies with the public key embedded in it, states the HTTP method and endpoint URL of that very request and the current time, uses an algorithm both sides support in the client's order of preference, never includes private key material, and has an identifier never used before. "
    "One client keeps one key across its proofs. "
    "When the provider does not support DPoP or no algorithm is shared, requests are sent without a proof and otherwise unchanged.",
    ["inputs", "histories", "configurations"],
    "for all supported/requested algorithm lists, endpoints and sequences of requests",
    "Tests produce one proof with one algorithm.",
    [S + "oauth2/add_on/dpop.py"],
    [{"name": "proof construction", "where": S + "oauth2/add_on/dpop.py dpop_header"}],
    ["request headers"],
    "Oracle verifies proofs independently with cryptojwt primitives.")

prop(
    "C11", "A request object conveys exactly the authorization request",
    "When a request is passed by value, by reference or pushed, the object the provider obtains is signed with the client's key and configured algorithm (or unsigned when so configured), encrypted for the provider when configured, names client and provider as issuer and audience, and its content is exactly the authorization request that would have been sent, which is also what the session records. "
    "The URL then carries only the object or its reference plus parameters the protocol requires, with values equal to those in the object; a reference resolves to a file containing precisely that object, and different requests never share a reference.",
    ["inputs", "configurations"],
    "for all request parameter sets, algorithms, passing modes and file locations",
    "Tests construct one object with default parameters.",
    [S + "oidc/authorization.py", S + "oidc/utils.py", S + "oauth2/add_on/pushed_authorization.py"],
    [{"name": "object construction", "where": S + "oidc/authorization.py construct_request_parameter"},
     {"name": "pushed requests", "where": S + "oauth2/add_on/pushed_authorization.py"}],
    ["authorization URL, written file, pushed body"],
    "Oracle decodes and verifies the object with independent code and compares with the plain request.")

prop(
    "C12", "The authorization URL is a faithful request to the provider's endpoint",
    "Starting a login returns a URL at the provider's published authorization endpoint, preserving every query parameter of that endpoint, that decodes to exactly the requested parameters: caller values first, then configured ones, then the client's registered values. "
    "It always has the client id, a redirect URI matching the response type, the response type, a state equal to the returned session key, scope including openid, and a nonce for OpenID Connect flows; what is recorded for the session equals what was sent.",
    ["inputs", "configurations"],
    "for all request arguments, scopes, response types, endpoint URLs and configured defaults",
    "Tests compare a few fixed URLs.",
    [S + "rp_handler.py", S + "oidc/authorization.py", S + "oauth2/authorization.py", S + "util.py", S + "service.py"],
    [{"name": "argument gathering", "where": S + "service.py gather_request_args"},
     {"name": "URL building", "where": S + "util.py get_http_url"}],
    ["url and state returned by begin/init_authorization"],
    "Oracle parses the URL with urllib and compares with a reference merge of the inputs.")

prop(
    "C13", "Discovery binds a client to exactly the issuer it asked for",
    "Provider information is requested from the well-known location of the issuer and is adopted only if the issuer it states is the one asked for (up to one trailing slash), unless the client explicitly allows a mismatch; once adopted every service uses exactly the published endpoint and the provider's published keys. "
    "Refused, failed or malformed provider information leaves the client without provider endpoints or keys from it.",
    ["inputs", "configurations", "fault_sequences"],
    "for all issuer identifiers, metadata documents and HTTP outcomes",
    "Tests use one or two correct documents; near-miss issuers, partially valid documents and subsequent state are not sampled.",
    [S + "oauth2/provider_info_discovery.py", S + "oidc/provider_info_discovery.py", S + "rp_handler.py"],
    [{"name": "issuer verification and endpoint set up", "where": S + "oauth2/provider_info_discovery.py _verify_issuer/_update_service_context"}],
    ["discovery request and service endpoints/keys afterwards"],
    "Generated metadata; oracle is an independent comparison of issuer and documents.")

prop(
    "C14", "Negotiated behaviour is what the client prefers among what the provider supports",
    "After discovery, each behaviour the client stated a preference for is the first preferred value, or for list-valued ones the preferred values in the client's order, that the provider supports, using the standard's default where the provider is silent. "
    "If nothing matches, the set-up fails instead of silently choosing something the provider does not support or the client did not ask for. "
    "Preferences the provider has no say in are passed through unchanged (of alternatives for a single value the first).",
    ["inputs", "configurations"],
    "for all preference sets and provider capability documents",
    "Tests match one fixed preference set against one or two providers.",
    [S + "oidc/provider_info_discovery.py"],
    [{"name": "preference matching", "where": S + "oidc/provider_info_discovery.py match_preferences"}],
    ["client behaviour after discovery", "registration request"],
    "Reference matcher over generated preference and capability sets.")

prop(
    "C15", "Dynamic registration announces and adopts exactly the client's facts",
    "A registration request announces the client's configured metadata and preferences, the grant types it prefers and those its response types imply, callback URIs under its base URL that are different for every provider and stable for the same one, and its keys either by value or by reference but never both. "
    "After a successful registration the client uses exactly the returned client id, secret, expiry and management token in later requests; failed or malformed registrations leave it unregistered.",
    ["inputs", "configurations"],
    "for all metadata, response type sets, issuers and registration responses",
    "Tests register once with fixed metadata.",
    [S + "oidc/registration.py", S + "oidc/read_registration.py", S + "util.py"],
    [{"name": "registration request/response", "where": S + "oidc/registration.py"}],
    ["registration request seen by the provider and later requests"],
    "Reference computation over generated configuration.")

prop(
    "C16", "WebFinger asks the right host and adopts only an acceptable issuer",
    "For every user identifier the discovery query follows the standard's normalization: it asks, over https, the host part of the identifier with the normalized resource and the OpenID issuer relation, without a fragment, and refuses identifiers it cannot handle. "
    "From a response it adopts the first link with that relation, refuses plain http links unless configured, and adopts nothing otherwise.",
    ["inputs"],
    "for all identifier strings and link sets",
    "Tests list a dozen identifiers.",
    [S + "oidc/webfinger.py"],
    [{"name": "normalization", "where": S + "oidc/webfinger.py query"},
     {"name": "link selection", "where": S + "oidc/webfinger.py update_service_context"}],
    ["WebFinger request URL", "issuer adopted"],
    "Independent normalizer written from the specification over generated identifiers.")

prop(
    "C17", "Cookies round-trip exactly and any alteration is detected",
    "A cookie created from a value, time stamp and keys parses back, with the same keys, to exactly that value and time stamp; with any other key, name or any alteration of its value it is never accepted as a different value: it is refused with the documented error or treated as absent. "
    "Encrypted cookies do not reveal the value, and the requested attributes (path, domain, expiry, Secure, HttpOnly, SameSite) appear exactly as asked.",
    ["inputs"],
    "for all values, time stamps, keys and alterations of the cookie string",
    "Tests alter one cookie in one place.",
    [S + "cookie.py"],
    [{"name": "MAC/AEAD", "where": S + "cookie.py make_cookie/parse_cookie"},
     {"name": "application values", "where": S + "cookie.py CookieDealer"}],
    ["make_cookie/parse_cookie, CookieDealer"],
    "Round trip plus generated tampering; oracle is the original value.")

prop(
    "C18", "Only well-formed success responses are treated as success",
    "For any HTTP status, content type and body a provider returns, the caller gets either the decoded content of a well-formed success response, the provider's error, or an exception; an unsuccessful status or an undecodable body never yields tokens, user info, client or provider data. "
    "In the unsuccessful cases nothing from that response is recorded for the session or the client.",
    ["inputs", "fault_sequences"],
    "for all statuses, content types, bodies and services",
    "Tests cover a few status/content type pairs.",
    [S + "oauth2/__init__.py", S + "service.py", S + "util.py"],
    [{"name": "response dispatch", "where": S + "oauth2/__init__.py parse_request_response/get_response/service_request"},
     {"name": "content type mapping", "where": S + "util.py get_deserialization_method"}],
    ["result/exception of client requests; stored state"],
    "Generated responses; oracle classifies them independently from status and body.")

prop(
    "C19", "Logout requests and notifications concern exactly the intended login",
    "A logout request for a login is sent to the provider's logout endpoint and carries that login's own most recent ID Token as hint, an allowed return address, and a fresh state that resolves back to that login only. "
    "A logout notification from the provider is accepted only if its token is signed by that provider, addressed to this client, current, has the logout event, no nonce, and a subject or session id, and it then identifies the login it names; everything else is refused.",
    ["inputs", "histories", "configurations"],
    "for all logout token claim sets, keys and open logins",
    "Tests use one session and one valid logout token.",
    [S + "oidc/end_session.py", S + "rp_handler.py"],
    [{"name": "logout request", "where": S + "oidc/end_session.py"},
     {"name": "logout token verification", "where": S + "rp_handler.py backchannel_logout"}],
    ["logout URL, backchannel_logout result"],
    "Generated tokens and sessions; oracle is an independent predicate.")

prop(
    "C20", "A client restored from its dump behaves like the original",
    "At any point of a login, dumping a client's configuration state through JSON and loading it into a fresh client gives a client whose further requests, verification decisions, session look-ups and results are the same as the original's. "
    "Dumping does not change the original and the restored one is independent of it.",
    ["histories", "crash_points", "configurations"],
    "for all steps of a login at which dump/load may be placed, and all client configurations",
    "Tests dump at a couple of hand-picked points and check one later request.",
    [S + "service_context.py", S + "service.py", S + "state_interface.py"],
    [{"name": "dump/load parameter tables", "where": S + "service_context.py parameter; " + S + "service.py parameter; " + S + "state_interface.py parameter"}],
    ["behaviour of restored client"],
    "Differential: original and restored client run the same continuation.",
    technique="differential property-based testing (Hypothesis)")

prop(
    "C21", "Configuration is input only and clients are independent",
    "Creating and using clients never changes the configuration, service definitions, request arguments or preferences the caller supplied, nor process-wide defaults. "
    "What a client does depends only on its own configuration and history: using another client, another handler, or having run before in the same process never changes its requests or decisions.",
    ["configurations", "histories"],
    "for all configurations, request arguments and prior activity in the process",
    "Tests build each client fresh with literal dictionaries and never look at them again.",
    [S + "rp_handler.py", S + "service.py", S + "service_context.py", S + "oidc/authorization.py", S + "client_auth.py", S + "oidc/provider_info_discovery.py"],
    [{"name": "configuration handling", "where": S + "rp_handler.py init_client/init_authorization; " + S + "service.py init_services"}],
    ["supplied objects before/after; requests with and without prior activity"],
    "Deep-copy comparison of inputs and differential comparison of requests after generated prior activity.")

prop(
    "C22", "Values that protect a login are fresh and unpredictable",
    "Every state, nonce, PKCE verifier, logout state, assertion identifier and request object file name is drawn from a cryptographically secure source, is long enough to be unguessable, and is never repeated across logins, clients or handlers. "
    "In particular seeding or copying the state of the process's ordinary random number generator neither predicts nor repeats them.",
    ["inputs", "histories", "configurations"],
    "for all seeds of the process random generator and numbers of logins",
    "Tests can only observe that two values differ.",
    [S + "util.py", S + "rp_handler.py", S + "state_interface.py", S + "oauth2/add_on/pkce.py"],
    [{"name": "random strings", "where": S + "util.py rndstr/unreserved"}],
    ["values in authorization, token and logout requests"],
    "Metamorphic: identical seeds must not give identical values; length, alphabet, position-wise diversity and uniqueness are checked over many values.")

prop(
    "C23", "The client credentials and plain OAuth2 clients follow the protocol",
    "A client credentials client sends the grant type, scope and its authentication and nothing belonging to another grant, records the returned token under its key with absolute expiry, and refreshes with the latest refresh token without exposing its credentials in the body. "
    "A plain OAuth2 client completes a code login with only a code and state, sends the recorded redirect URI and code, and keeps each login's tokens under its own state.",
    ["inputs", "histories"],
    "for all scopes, credentials, tokens and sequences of requests",
    "Tests run a single request per service.",
    [S + "oauth2/client_credentials/cc_access_token.py", S + "oauth2/client_credentials/cc_refresh_access_token.py", S + "oauth2/__init__.py", S + "oauth2/authorization.py"],
    [{"name": "client credentials services", "where": S + "oauth2/client_credentials"}],
    ["HTTP requests and stored responses"],
    "Generated histories against a recording server.")

prop(
    "C24", "The HTTP client sends what it is asked to and keeps cookies correctly",
    "Each request is sent with the caller's URL, method, body and headers, the configured HTTP parameters for what the caller does not specify, and the changes made by a request callback; redirects are not followed automatically, and a request changes neither the defaults nor the caller's arguments. "
    "Cookies set by a response are kept in the jar with their name, value, domain, path and expiry: Max-Age counts in seconds, zero or less removes the cookie, and a new value replaces the old one.",
    ["inputs", "histories"],
    "for all request arguments and sequences of Set-Cookie headers",
    "Tests parse two fixed Set-Cookie headers and send nothing.",
    [S + "http.py", S + "util.py"],
    [{"name": "request composition", "where": S + "http.py __call__"},
     {"name": "cookie jar", "where": S + "util.py set_cookie"}],
    ["arguments of the outgoing HTTP request"],
    "Recording transport and a small cookie model over generated histories.")

prop(
    "C25", "Configuration loading and URL/name helpers are exact",
    "Loading a configuration from a dictionary or file gives the documented attributes (in lower or upper case) with configured values winning over defaults, relative file names resolved against the base path, and the domain and port placeholders filled in in every configured URI of the relying party and its clients and nowhere else; logging is set up as the given dictionary, file or the default says, at debug level when asked, without changing any of them. "
    "The helpers for joining paths, importing names, recognising media types, building request URLs and bodies, picking redirect addresses and translating HTTP parameters, naming the files and addresses of request objects and setting up TLS for a server give the specified result for every input.",
    ["inputs", "configurations"],
    "for all configuration trees and helper arguments",
    "Tests load one configuration file.",
    [S + "configure.py", S + "util.py", S + "oauth2/utils.py", S + "logging.py"],
    [{"name": "configuration classes", "where": S + "configure.py"}, {"name": "helpers", "where": S + "util.py"}],
    ["attributes of the configuration objects; helper results"],
    "Reference implementations over generated input.")


prop(
    "C26", "Session checks carry the login's own newest ID Token",
    "A session check or identity check request made for a login carries exactly the ID Token most recently received for that login, as the provider issued it, also after refreshes that did or did not bring a new one, "
    "after failed refreshes and with any number of other logins; never another login's token or a rendering of its claims; and it carries what the caller supplied besides.",
    ["histories"],
    "for all histories of logins, refreshes and checks with several providers",
    "The tests put a made-up string where the ID Token is kept instead of completing a login.",
    [S + "oidc/check_session.py", S + "oidc/check_id.py", S + "state_interface.py"],
    [{"name": "look-up of the ID Token", "where": S + "state_interface.py multiple_extend_request_args"}],
    ["messages made by the services check_session and check_id"],
    "Model comparison over generated histories.")


prop(
    "C27", "Encrypted user information is treated like the same content unencrypted",
    "A user info response that is encrypted for the client is decrypted with the client's own keys, whether the client is configured statically or registered dynamically, and then has exactly the outcome, and leaves exactly the records, that the same "
    "content has when it is sent unencrypted: the same claims, the same requirements on signature and subject. A response that is encrypted for somebody else, damaged in any part, or encrypted "
    "with other algorithms than the client registered is refused and nothing of it is recorded.",
    ["inputs", "configurations"],
    "for all contents, key management and content encryption algorithms, recipients, key identifiers and damages, for all static and dynamic clients",
    "Tests decrypt one prepared response with one client; they never compare the result with the unencrypted content, damage parts of it or change the recipient.",
    [S + "service.py", S + "oidc/userinfo.py", S + "client_auth.py"],
    [{"name": "decryption and verification of JWT responses", "where": S + "service.py _do_jwt, parse_response"},
     {"name": "subject comparison", "where": S + "oidc/userinfo.py post_parse_response"}],
    ["result or exception of RPHandler.get_user_info / finalize", "dump of the session store"],
    "Differential search: the same login is answered with plain and with encrypted content; trusts cryptojwt's encryption.",
    technique="property-based testing (Hypothesis), differential")

prop(
    "C28", "Operations of different logins that overlap in time don't affect each other",
    "When several threads use one handler, each working on another login (beginning it, also as the first ones at a provider, completing it, fetching tokens or user info, refreshing, logging out, clearing it), every operation has, up to fresh "
    "random values, the result, the requests and the stored records that it has when the operations run one after the other, and every login that was begun can be completed.",
    ["schedules", "histories", "configurations"],
    "for all sets of operations on different logins, client configurations and schedules that switch between them at network requests or between lines of the library's code",
    "Tests never run two things at the same time; what goes wrong needs a switch at a particular point, for example between choosing a client and recording it.",
    [S + "rp_handler.py", S + "service.py", S + "service_context.py", S + "state_interface.py", S + "oauth2/__init__.py"],
    [{"name": "one client per provider", "where": S + "rp_handler.py client_setup, init_client"},
     {"name": "nothing about a request in progress is kept in shared objects", "where": S + "service.py get_request_parameters, parse_response; " + S + "oauth2/__init__.py service_request"}],
    ["results and exceptions of the operations", "requests on the wire per operation", "session records and lookups", "completion of logins afterwards"],
    "Generated schedules drive real threads, one at a time, switching at requests or source lines; compared with the sequential run. Switches within a line aren't explored.",
    technique="property-based testing (Hypothesis) over generated schedules")

prop(
    "C29", "A request that fails changes nothing and can be repeated",
    "When a request to a provider fails (no connection, no answer, an error page, a redirect, an empty, cut or garbled answer, at discovery, registration, webfinger, token, refresh, user info, pushed authorization "
    "requests or the provider's keys), the operation is reported as failed, whatever it says it never looks like a success, and nothing is recorded or changed for any login, client or provider "
    "apart from what completed steps of the same operation recorded. "
    "Repeated once the provider answers again, the operation has the same result, requests and records as if the failure hadn't happened; not repeated, everything else goes on as if it had never been tried.",
    ["fault_sequences", "histories", "configurations"],
    "for all histories of one or several logins at one or several providers and all places and kinds of transport and server failures",
    "Tests give every request a good answer, or a single failing one at the end; they never go on after a failure, so what a failed step leaves behind shows nowhere.",
    [S + "service.py", S + "rp_handler.py", S + "oauth2/__init__.py", S + "oidc/registration.py", S + "oidc/provider_info_discovery.py", S + "http.py"],
    [{"name": "answers are recorded after they have been verified", "where": S + "oauth2/__init__.py service_request, parse_request_response"},
     {"name": "a client is kept once it is ready", "where": S + "rp_handler.py client_setup"}],
    ["results and exceptions", "session store, client and provider records", "requests on the wire of the repeated operation and of later ones"],
    "Differential fault injection: the same history with and without faults against copies of the same simulated provider.",
    technique="property-based testing (Hypothesis), differential fault injection")

prop(
    "C30", "What is secret between client and provider goes nowhere else",
    "Client secrets, client assertions, authorization codes, access and refresh tokens, PKCE verifiers, registration access tokens, tokens for claim sources and ID Tokens are only sent to that endpoint of the provider "
    "(or claim source) which they are for, in the headers or body and never in the URL of a back-channel request, and private keys are sent nowhere; this also holds when a provider answers with redirects, errors, cookies or names other addresses. "
    "A front-channel request goes to the provider's own endpoint and carries state and nonce of that login alone (a logout that login's ID Token). "
    "Nothing returned or recorded for one login holds a code, token, state or nonce of another.",
    ["histories", "configurations", "inputs"],
    "for all histories of logins at several providers, ways to authenticate, add-ons, response types, and answers of the providers",
    "Tests look at the one request they made and at the value they expect in it; that a secret is in no other place of any request needs a search through all of them with several providers.",
    [S + "client_auth.py", S + "service.py", S + "http.py", S + "rp_handler.py", S + "oauth2/access_token.py", S + "oidc/userinfo.py", S + "oidc/__init__.py", S + "oauth2/add_on/pkce.py"],
    [{"name": "authentication per service", "where": S + "client_auth.py; " + S + "service.py init_authentication_method"},
     {"name": "redirects aren't followed and cookies kept per client", "where": S + "http.py"},
     {"name": "arguments come from the login's own session", "where": S + "state_interface.py multiple_extend_request_args"}],
    ["headers, bodies and URLs of all requests, decoded", "authorization and logout URLs", "results", "session records"],
    "Generated histories; every secret that exists is searched for (also base64, URL, JSON and JWT encoded) in everything sent, returned and recorded.",
    technique="property-based testing (Hypothesis), taint search over generated histories")

prop(
    "C31", "What a refresh brings keeps the login with its user",
    "An ID Token that comes with refreshed tokens is accepted only if it satisfies what the first one had to (signature by the provider's key with the registered algorithm, issuer, audience, authorized party, validity with the clock skew), "
    "is about the user of the login and carries, if any, the nonce of that login; one that satisfies this is accepted. "
    "If it is refused, nothing of the response is recorded: tokens, identity, look-ups and the refresh token used next stay as they were, for all logins. "
    "If it is accepted, it is the one that identity, activity and logout hint of that login come from, and what it does not replace stays.",
    ["histories", "inputs", "configurations"],
    "for all histories of logins of several users at several providers and of refreshes with no, good or bad ID Tokens",
    "Tests refresh once with a prepared answer; that no refresh moves a login to another user or breaks it needs histories with hostile ID Tokens and all records compared.",
    [S + "oidc/refresh_access_token.py", S + "oauth2/refresh_access_token.py", S + "oidc/access_token.py", S + "service.py", S + "state_interface.py", S + "rp_handler.py"],
    [{"name": "verification arguments of the token service", "where": S + "oidc/access_token.py gather_verify_arguments"},
     {"name": "refresh responses extend what is stored", "where": S + "oauth2/refresh_access_token.py update_service_context"},
     {"name": "the latest of the responses is used", "where": S + "state_interface.py multiple_extend_request_args"}],
    ["session records", "results of look-ups, activity, valid tokens", "refresh and logout requests"],
    "Model-based histories with an independent judge of ID Tokens (the one of C01) and a snapshot of all records around every refused refresh.",
    technique="property-based testing (Hypothesis), model-based histories with mutated tokens")

prop(
    "C32", "Operations that overlap on one login lose nothing of it",
    "When operations for the same login overlap in time (completing it, also twice with the same response or together with an error; or one refresh, one user info request, logging out, logout notifications, questions about its token or activity), "
    "their results, their requests and what is recorded for the login afterwards are those of running them one after the other in some order. "
    "Nothing that one of them received is lost or mixed with what another one received, and everything recorded can still be looked up, used and cleared; "
    "other logins of the same client are unaffected.",
    ["schedules", "histories", "configurations"],
    "for all pairs and triples of such operations, client configurations, and interleavings of them at network requests and lines of code",
    "Tests run one operation at a time; an update that is lost needs a thread that is suspended between reading and writing a login's record.",
    [S + "state_interface.py", S + "rp_handler.py", S + "oauth2/access_token.py", S + "oauth2/refresh_access_token.py", S + "oidc/userinfo.py", S + "oidc/end_session.py", S + "service.py"],
    [{"name": "storing what is received with what is there already", "where": S + "state_interface.py store_item, store_x2state, remove_state"},
     {"name": "session records are updated per response", "where": S + "oidc/userinfo.py, " + S + "oauth2/refresh_access_token.py update_service_context"}],
    ["results and requests of all operations", "session records and look-ups", "later refresh, user info, logout, clearing"],
    "Generated interleavings of real threads (one runs at a time); compared with the sequential orders of the same operations.",
    technique="property-based testing (Hypothesis), generated thread schedules against sequential runs")

prop(
    "C33", "Keys serve those they belong to: own keys announced, provider keys per issuer",
    "What the RP signs (client assertions, request objects) verifies with the keys it announces (the published file at its jwks_uri, the keys it sends by value, or a client's own key files); nothing private is published or sent, and after a restart the keys are the same. "
    "Keys configured for a provider (a URL or a JWKS or PEM file, for the client or in the provider information) verify what that provider signed, also after it has changed its published keys, and nothing that another provider, an unpublished key or the RP itself signed. "
    "Keys are fetched with the HTTP parameters that are configured, and the configuration is left as it is.",
    ["inputs", "configurations", "histories"],
    "for all key sources, key types, base URLs and paths, client configurations, histories of logins, restarts and key changes, and signers and key identifiers of ID Tokens and user info",
    "Tests set up one key jar from memory and never compare what is signed with what somebody else can read; a key in the wrong place still verifies in the process that made it.",
    [S + "rp_handler.py", S + "service_context.py", S + "client_auth.py", S + "oidc/authorization.py", S + "oidc/registration.py", S + "defaults.py"],
    [{"name": "the handler's keys, where they are published and who gets them", "where": S + "rp_handler.py __init__, init_client"},
     {"name": "keys of a provider in static provider information", "where": S + "rp_handler.py do_provider_info"},
     {"name": "configured keys of a client", "where": S + "service_context.py __init__, import_keys"}],
    ["files and announced keys", "client assertions and request objects at the provider", "logins and user info accepted or refused", "requests for keys"],
    "Generated set-ups and histories; a simulated provider that has only what was announced, and signers of all kinds.",
    technique="property-based testing (Hypothesis), stateful histories with independent verification on the provider's side")

prop(
    "C34", "A login done step by step is the same as one done with begin and finalize",
    "A login that is begun and completed with the single operations (set-up, provider information, registration, authorization request, authorization response, tokens, user info), addressed by client or session key and with what was returned or what is stored, "
    "makes the same requests, gives the same results (or errors) and leaves the same session information as begin and finalize, and later operations can't tell the difference; setting up what is set up already changes nothing. "
    "A key that isn't one of a session of this handler is refused by every operation without a request or a change of any record, as is an operation the client has no service for or that lacks what it needs.",
    ["inputs", "configurations", "histories"],
    "for all client configurations, histories of logins (with failures and repetitions), ways to divide them into steps, and keys that aren't session keys",
    "Tests call each operation once in one order with one configuration and don't compare the ways with one another.",
    [S + "rp_handler.py", S + "state_interface.py", S + "oauth2/access_token.py", S + "oidc/userinfo.py", S + "oidc/end_session.py"],
    [{"name": "the client of a session key", "where": S + "rp_handler.py state2issuer, get_client_from_session_key"},
     {"name": "tokens from a response or from what is stored", "where": S + "rp_handler.py get_access_and_id_token, get_user_info"},
     {"name": "begin and finalize are made of the steps", "where": S + "rp_handler.py"}],
    ["results and exceptions", "requests at the provider", "session information and records"],
    "Differential: the same history in two worlds, in steps and all at once; an invariant over refused operations.",
    technique="property-based testing (Hypothesis), differential between ways of using the API")

prop(
    "C35", "A service is what its definition says, for exactly that client",
    "Each service of a client is an instance of the class its definition names (by name, as an object, the library's or the application's own), with the message classes, HTTP method, default request arguments and arguments for modifiers the definition gives. "
    "The modifiers the definition lists are run for every request of that service, once per mention and in the order given, before the request is made or on the finished request, and never for a request of another service or client. "
    "What a definition names but can't be found is an error before any request is sent, and the definitions themselves stay as they were given.",
    ["inputs", "configurations", "histories"],
    "for all service definitions, shared by clients or not, and histories of logins, refreshes and user info requests",
    "Tests use the default definitions; modifiers are configured by none of them.",
    [S + "service.py", S + "entity.py", S + "rp_handler.py"],
    [{"name": "from definitions to services", "where": S + "service.py init_services, gather_constructors"},
     {"name": "the order of modifiers, arguments and sources", "where": S + "service.py do_pre_construct, do_post_construct, gather_request_args"}],
    ["requests at the provider", "calls of modifiers", "classes of services"],
    "A reference model of what each modifier has to see and leave in each request; an invariant over the definitions.")

NOT_APPLICABLE = []   # (id, reason)
UNCLAIMED_REASON = "check under construction; not claimed yet"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=True) + "\n")
    checks, na = [], []
    nad = dict(NOT_APPLICABLE)
    for p in P:
        if p["id"] in nad:
            na.append({"property": p["id"], "reason": nad[p["id"]]})
        elif os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            cmd = "./run_check " + p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                           "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
        else:
            na.append({"property": p["id"], "reason": UNCLAIMED_REASON})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))


if __name__ == "__main__":
    main()
