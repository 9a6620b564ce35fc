"""C05 - C12"""
SEEDS = [
 dict(id="C05-sub-front-only", property="C05",
      needs="a flow where the only ID Token is the one in the redirect; user info with another subject",
      breaks="the subject of the user info is not compared with the ID Token's subject",
      edits=[("oidc/userinfo.py", """            {}, kwargs['state'], ['id_token'],
            ['auth_response', 'token_response', 'refresh_token_response']
""", """            {}, kwargs['state'], ['id_token'],
            ['token_response', 'refresh_token_response']
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt="id_token token")})
o.userinfo_hook = lambda req: response(200, {"sub": "victim", "email": "v@example.org"})
b = h.begin("p")
lg, r = o.authorize(b["url"])
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError(res)
'''),
 dict(id="C05-sub-casefold", property="C05",
      needs="user info whose subject differs from the ID Token's only in letter case",
      breaks="user info about another subject is accepted",
      edits=[("oidc/userinfo.py", """            if response['sub'] != _sub:
""", """            if response['sub'].lower() != _sub.lower():
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
o.userinfo_hook = lambda req: response(200, {"sub": "ALICE", "email": "v@example.org"})
b = h.begin("p")
lg, r = o.authorize(b["url"], sub="alice")
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError(res)
'''),
 dict(id="C05-source-prefix", property="C05",
      needs="an aggregated source whose name is a prefix of another source's name and that contains that source's claims too",
      breaks="an aggregated source supplies claims that the response attributes to another source",
      edits=[("oidc/userinfo.py", """                        claims = [value for value, src in
                                  response["_claim_names"].items() if
""", """                        claims = [value for value, src in
                                  response["_claim_names"].items() if value != 'sub'
                                  and src.startswith(csrc) or
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
jwt = sign({"iss": o.issuer, "email": "from-src1", "phone": "from-src1"}, "RS256", owner=o.owner)
o.userinfo_hook = lambda req: response(200, {"sub": "alice", "_claim_names": {"email": "src1", "phone": "src12"},
    "_claim_sources": {"src1": {"JWT": jwt}, "src12": {"endpoint": "https://x.example/c"}}})
b = h.begin("p")
lg, r = o.authorize(b["url"], sub="alice")
res = h.finalize(o.issuer, r)
assert "phone" not in res["userinfo"], dict(res["userinfo"])
'''),
 dict(id="C05-distributed-all", property="C05",
      needs="a distributed source that returns claims the response attributes to nobody, and all those it should",
      breaks="a distributed source adds claims that were not attributed to it",
      edits=[("oidc/__init__.py", """                    # only add those I expected
                    for key in claims:
""", """                    if spec.get("access_token"):
                        # a protected source, hence tell all that it told
                        claims.extend([c for c in _uinfo if c not in userinfo])
                    for key in claims:
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
w.serve("c.example", lambda req: response(200, {"phone": "1", "admin": True}))
b = h.begin("p")
ui = {"sub": "alice", "_claim_names": {"phone": "s"}, "_claim_sources": {"s": {"endpoint": "https://c.example/c", "access_token": "t"}}}
res = h.issuer2rp[o.issuer].fetch_distributed_claims(ui)
assert res["phone"] == "1" and "admin" not in res, res
'''),
 dict(id="C06-zero-lifetime", property="C06",
      needs="a refresh whose new access token has a lifetime of zero",
      breaks="an access token that expired at once is handed out as one that never expires",
      edits=[("oauth2/refresh_access_token.py", """        if 'expires_in' in resp:
""", """        if resp.get('expires_in'):
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
o.expires_in = 0
h.refresh_access_token(b["state"])
tok, exp = h.get_valid_access_token(b["state"])
assert exp, (tok, exp)
'''),
 dict(id="C06-older-id-token", property="C06",
      needs="hybrid flow where the ID Token from the token endpoint has another expiry time than the one in the redirect",
      breaks="whether a login is actively authenticated is decided by an older ID Token",
      edits=[("rp_handler.py", """            {}, state, ['__verified_id_token'],
            ['auth_response', 'token_response', 'refresh_token_response'])

        if _arg:
""", """            {}, state, ['__verified_id_token'],
            ['token_response', 'auth_response', 'refresh_token_response'])

        if _arg:
""")],
      files=["clock.py"],
      demo='''
from clock import Clock
from op import *
c = Clock()
c.__enter__()
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt="code id_token")})
b = h.begin("p")
o.idt_life = 10000
lg, r = o.authorize(b["url"])
o.idt_life = 100
h.finalize(o.issuer, r)
c.advance(1000)
assert not h.has_active_authentication(b["state"])
'''),
 dict(id="C06-first-valid", property="C06",
      needs="hybrid flow with access tokens from both the redirect and the token endpoint where the one from the redirect lasts longer",
      breaks="the access token handed out is not the one that lasts longest",
      edits=[("rp_handler.py", """                        if _exp > now and _exp > exp:  # expires sometime in the future
""", """                        if _exp > now and not token:  # expires sometime in the future
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt="code token")})
b = h.begin("p")
o.expires_in = 9000
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r, behaviour_args={"collect_tokens": True}) if 0 else h.finalize_auth(h.issuer2rp[o.issuer], o.issuer, r)
o.expires_in = 60
h.get_tokens(b["state"])
tok, exp = h.get_valid_access_token(b["state"])
assert tok == lg.ats[0], (tok, lg.ats)
'''),
 dict(id="C07-redirect-first", property="C07",
      needs="a login started with a redirect URI that is not the first registered one",
      breaks="the token request carries another redirect URI than the authorization request",
      edits=[("rp_handler.py", """            'redirect_uri': authorization_request['redirect_uri'],
            'grant_type': 'authorization_code',
""", """            'redirect_uri': pick_redirect_uri(_context),
            'grant_type': 'authorization_code',
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
c = client_conf(o)
c["redirect_uris"] = ["https://rp.example.com/cb0", "https://rp.example.com/alt"]
h = handler({"p": c})
b = h.begin("p", req_args={"redirect_uri": "https://rp.example.com/alt"})
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
req = w.since(0, path="/token")[0].params()
assert req["redirect_uri"] == "https://rp.example.com/alt", req
'''),
 dict(id="C07-old-refresh-token", property="C07",
      needs="refreshing twice with a provider that rotates refresh tokens",
      breaks="the second refresh sends the first refresh token instead of the most recently received one",
      edits=[("oauth2/refresh_access_token.py", """        _args = _si.extend_request_args({}, oauth2.AccessTokenResponse,
                                        'token_response', _state, parameters)

        _args = _si.extend_request_args(_args, oauth2.AccessTokenResponse,
                                        'refresh_token_response', _state,
                                        parameters)
""", """        _args = _si.extend_request_args({}, oauth2.AccessTokenResponse,
                                        'refresh_token_response', _state,
                                        parameters)

        _args = _si.extend_request_args(_args, oauth2.AccessTokenResponse,
                                        'token_response', _state, parameters)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
h.refresh_access_token(b["state"])
want = lg.rts[-1]
h.refresh_access_token(b["state"])
req = w.since(0, path="/token")[-1].params()
assert req["refresh_token"] == want, (req, lg.rts)
'''),
 dict(id="C07-userinfo-stale-token", property="C07",
      needs="user info fetched through the service, without naming a token, after a refresh",
      breaks="a user info request carries an access token that has been replaced by a refresh",
      edits=[("oidc/userinfo.py", """                request_args, kwargs['state'], ['access_token'],
                ['auth_response', 'token_response', 'refresh_token_response']
""", """                request_args, kwargs['state'], ['access_token'],
                ['auth_response', 'refresh_token_response', 'token_response']
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
h.refresh_access_token(b["state"])
h.issuer2rp[o.issuer].do_request("userinfo", state=b["state"])
req = w.since(0, path="/userinfo")[-1]
assert req.headers["Authorization"] == "Bearer " + lg.ats[-1], (req, lg.ats)
'''),
 dict(id="C08-verifier-in-addon", property="C08",
      needs="two logins under way at the same time; the first one is completed after the second was started",
      breaks="the token request carries the code verifier of the login that was started last",
      edits=[("oauth2/add_on/pkce.py", """    _item = Message(code_verifier=code_verifier, code_challenge_method=_method)
    _context.state.store_item(_item, 'pkce', request_args['state'])
""", """    _item = Message(code_verifier=code_verifier, code_challenge_method=_method)
    _kwargs['current'] = _item
    _context.state.store_item(_item, 'pkce', request_args['state'])
"""), ("oauth2/add_on/pkce.py", """    _item = service.client_get("service_context").state.get_item(Message, 'pkce', _state)
""", """    _context = service.client_get("service_context")
    _item = _context.add_on['pkce'].pop('current', None) or _context.state.get_item(
        Message, 'pkce', _state)
""")],
      demo='''
from op import *
import base64, hashlib
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, add_ons=PKCE)})
a = h.begin("p")
b = h.begin("p")
lg, r = o.authorize(a["url"])
h.finalize(o.issuer, r)
v = w.since(0, path="/token")[-1].params()["code_verifier"]
ch = base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).decode().rstrip("=")
assert ch == lg.request["code_challenge"]
'''),
 dict(id="C08-s384", property="C08",
      needs="the add-on configured for S384",
      breaks="the code challenge is not made with the hash function that is stated",
      edits=[("defaults.py", """    'S384': hashlib.sha384,
""", """    'S384': hashlib.sha3_384,
""")],
      demo='''
from op import *
import base64, hashlib
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, add_ons={"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                 "kwargs": {"code_challenge_length": 64, "code_challenge_method": "S384"}}})})
a = h.begin("p")
lg, r = o.authorize(a["url"])
h.finalize(o.issuer, r)
v = w.since(0, path="/token")[-1].params()["code_verifier"]
ch = base64.urlsafe_b64encode(hashlib.sha384(v.encode()).digest()).decode().rstrip("=")
assert ch == lg.request["code_challenge"]
'''),
 dict(id="C08-one-verifier-per-client", property="C08",
      needs="two authorization requests by the same client within one second",
      breaks="the same code verifier is used for more than one login",
      edits=[("oauth2/add_on/pkce.py", """    code_verifier = unreserved(cv_len)
    _cv = code_verifier.encode()
""", """    _now = utc_time_sans_frac()
    if _kwargs.get('minted') != _now:
        _kwargs['minted'] = _now
        _kwargs['verifier'] = unreserved(cv_len)
    code_verifier = _kwargs['verifier']
    _cv = code_verifier.encode()
"""), ("oauth2/add_on/pkce.py", """from oidcmsg.message import Message
""", """from oidcmsg.message import Message
from oidcmsg.time_util import utc_time_sans_frac
""")],
      files=["clock.py"],
      demo='''
from clock import Clock
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, add_ons=PKCE)})
with Clock():
    a = single(query_of(h.begin("p")["url"]))
    b = single(query_of(h.begin("p")["url"]))
assert a["code_challenge"] != b["code_challenge"]
'''),
 dict(id="C09-user-not-quoted", property="C09",
      needs="a client id with characters that have to be form encoded, like ':' or '%'",
      breaks="the server recovers another client id from the Basic header",
      edits=[("client_auth.py", """        credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
""", """        credentials = "{}:{}".format(quote_plus(user, safe=':/'), quote_plus(passwd))
""")],
      demo='''
from op import *
import base64
from urllib.parse import unquote_plus
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, client_id="https://rp.example.com/1")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
hd = w.since(0, path="/token")[0].headers["Authorization"]
u, p = base64.b64decode(hd[6:]).decode().split(":", 1)
assert (unquote_plus(u), unquote_plus(p)) == ("https://rp.example.com/1", o.secret), (u, p)
'''),
 dict(id="C09-jti-reuse", property="C09",
      needs="two assertions made in the same second",
      breaks="two assertions have the same identifier",
      edits=[("client_auth.py", """                        aud=audience, jti=rndstr(32),
""", """                        aud=audience, jti=b64e(as_bytes("{}{}{}".format(
                            client_id, _now, audience))).decode("ascii"),
"""), ("client_auth.py", """from cryptojwt.jws.utils import alg2keytype
""", """from cryptojwt.jws.utils import alg2keytype
from cryptojwt.utils import as_bytes
from cryptojwt.utils import b64e
""")],
      files=["clock.py"],
      demo='''
from clock import Clock
from op import *
w = World().__enter__()
o = OP(w, 0)
c = client_conf(o)
c["behaviour"]["token_endpoint_auth_method"] = "client_secret_jwt"
h = handler({"p": c})
seen = []
with Clock():
    for i in range(2):
        b = h.begin("p")
        lg, r = o.authorize(b["url"])
        h.finalize(o.issuer, r)
from cryptojwt.jws.jws import factory
for req in w.since(0, path="/token"):
    seen.append(factory(req.params()["client_assertion"]).jwt.payload()["jti"])
assert len(set(seen)) == 2, seen
'''),
 dict(id="C09-secret-with-given-assertion", property="C09",
      needs="a request that has the client secret among its arguments and an assertion made by the caller",
      breaks="the client secret is sent along with a signed assertion",
      edits=[("client_auth.py", """        else:
            request["client_assertion"] = self._construct_client_assertion(service, **kwargs)
            request["client_assertion_type"] = JWT_BEARER

        try:
            del request["client_secret"]
        except KeyError:
            pass
""", """        else:
            request["client_assertion"] = self._construct_client_assertion(service, **kwargs)
            request["client_assertion_type"] = JWT_BEARER

            try:
                del request["client_secret"]
            except KeyError:
                pass
""")],
      demo='''
from op import *
from oidcrp.client_auth import PrivateKeyJWT
from oidcmsg.oidc import AccessTokenRequest
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
h.begin("p")
srv = h.issuer2rp[o.issuer].get_service("accesstoken")
req = AccessTokenRequest(code="c", grant_type="authorization_code", redirect_uri="https://rp.example.com/cb", client_secret="hush", client_id="x")
PrivateKeyJWT().construct(req, srv, client_assertion="a.b.c")
assert "client_secret" not in req, req
'''),
 dict(id="C09-two-audiences", property="C09",
      needs="a signed assertion for the token endpoint of a provider",
      breaks="the assertion can be used at more than one place",
      edits=[("client_auth.py", """            audience = context.provider_info['token_endpoint']
""", """            audience = [context.provider_info['token_endpoint']]
            if context.provider_info['issuer'] not in audience[0]:
                # the token endpoint is on another host
                audience.append(context.provider_info['issuer'])
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"token_endpoint": "https://tok.example.net/token"})
w.serve("tok.example.net", o.handle)
c = client_conf(o)
c["behaviour"]["token_endpoint_auth_method"] = "private_key_jwt"
h = handler({"p": c})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
from cryptojwt.jws.jws import factory
aud = factory(w.since(0, path="/token")[0].params()["client_assertion"]).jwt.payload()["aud"]
assert aud in ("https://tok.example.net/token", ["https://tok.example.net/token"]), aud
'''),
 dict(id="C10-server-order", property="C10",
      needs="client and provider share more than one algorithm but list them in different order",
      breaks="the proof uses the provider's favourite algorithm instead of the client's",
      edits=[("oauth2/add_on/dpop.py", """        for alg in service_context.add_on['dpop']["sign_algs"]:
            if alg in algs_supported:
""", """        for alg in algs_supported:
            if alg in service_context.add_on['dpop']["sign_algs"]:
""")],
      demo='''
from op import *
from cryptojwt.jws.jws import factory
w = World().__enter__()
o = OP(w, 0, meta={"dpop_signing_alg_values_supported": ["RS256", "ES256"]})
h = handler({"p": client_conf(o, add_ons={"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256", "RS256"]}}})})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
alg = factory(w.since(0, path="/token")[0].headers["dpop"]).jwt.headers["alg"]
assert alg == "ES256", alg
'''),
 dict(id="C10-jti-second", property="C10",
      needs="two requests to the same endpoint within a second",
      breaks="two proofs have the same identifier",
      edits=[("oauth2/add_on/dpop.py", """        "jti": uuid.uuid4().hex,
""", """        "jti": uuid.uuid5(uuid.NAMESPACE_URL, "{}{}{}".format(
            provider_info[service_endpoint], utc_time_sans_frac(), dpop_key.kid)).hex,
""")],
      files=["clock.py"],
      demo='''
from clock import Clock
from op import *
from cryptojwt.jws.jws import factory
w = World().__enter__()
o = OP(w, 0, meta={"dpop_signing_alg_values_supported": ["ES256"]})
h = handler({"p": client_conf(o, add_ons={"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}})})
with Clock():
    for i in range(2):
        b = h.begin("p")
        lg, r = o.authorize(b["url"])
        h.finalize(o.issuer, r)
j = [factory(q.headers["dpop"]).jwt.payload()["jti"] for q in w.since(0, path="/token")]
assert len(set(j)) == 2, j
'''),
 dict(id="C10-htm-default", property="C10",
      needs="a user info request made with another HTTP method than the service's default",
      breaks="the proof states another HTTP method than the request's",
      edits=[("service.py", """                            service_endpoint=self.endpoint_name,
                            http_method=http_method,
""", """                            service_endpoint=self.endpoint_name,
                            http_method=self.http_method,
""")],
      demo='''
from op import *
from cryptojwt.jws.jws import factory
w = World().__enter__()
o = OP(w, 0, meta={"dpop_signing_alg_values_supported": ["ES256"]})
h = handler({"p": client_conf(o, add_ons={"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}})})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
h.issuer2rp[o.issuer].do_request("userinfo", state=b["state"], method="POST")
q = w.since(0, path="/userinfo")[-1]
assert q.method == "POST" and factory(q.headers["dpop"]).jwt.payload()["htm"] == "POST"
'''),
 dict(id="C11-file-append", property="C11",
      needs="two requests by reference with a pre-registered request URI",
      breaks="the reference resolves to a file that contains more than the request object",
      edits=[("oidc/authorization.py", """        fid = open(filename, mode="w")
        fid.write(req)
        fid.close()
""", """        with open(filename, mode="a") as fid:
            fid.write(req)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"require_request_uri_registration": True})
c = client_conf(o, dynamic=True)
c["client_preferences"]["request_uri_usable"] = True
c["client_preferences"]["request_uris"] = ["https://rp.example.com/ro/1.jwt"]
h = handler({"p": c})
for i in range(2):
    b = h.begin("p", behaviour_args={"request_param": "request_uri"})
q = single(query_of(b["url"]))
assert q["request_uri"].startswith("https://rp.example.com/ro/1.jwt"), q
text = open("ro/1.jwt").read()
assert text.count(".") == 2, text
'''),
 dict(id="C11-signed-with-other-alg", property="C11",
      needs="a configured signing algorithm and a provider that does not say which ones it supports",
      breaks="the request object is signed with another algorithm than the configured one",
      edits=[("oidc/authorization.py", """                alg = self.client_get("service_context").behaviour["request_object_signing_alg"]
            except KeyError:  # Use default
""", """                _context = self.client_get("service_context")
                alg = _context.behaviour["request_object_signing_alg"]
                if alg not in _context.provider_info.get(
                        "request_object_signing_alg_values_supported", ["RS256"]):
                    alg = "RS256"
            except KeyError:  # Use default
""")],
      demo='''
from op import *
from cryptojwt.jws.jws import factory
w = World().__enter__()
o = OP(w, 0)
c = client_conf(o)
c["behaviour"]["request_object_signing_alg"] = "ES256"
h = handler({"p": c})
b = h.begin("p", behaviour_args={"request_param": "request"})
alg = factory(single(query_of(b["url"]))["request"]).jwt.headers["alg"]
assert alg == "ES256", alg
'''),
 dict(id="C11-reference-name-state", property="C11",
      needs="requests by reference made by two clients with a state in common, or two requests for one session",
      breaks="two different requests share one reference",
      edits=[("oidc/utils.py", """    _name = rndstr(10) + ".jwt"
    filename = os.path.join(_filedir, _name)
    while os.path.exists(filename):
        _name = rndstr(10)
        filename = os.path.join(_filedir, _name)
""", """    _name = (kwargs.get("state") or kwargs.get("issuer", "")[-10:] or rndstr(10)) + ".jwt"
    filename = os.path.join(_filedir, _name)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
q = [single(query_of(h.begin("p", behaviour_args={"request_param": "request_uri"})["url"]))["request_uri"] for i in range(2)]
assert q[0] != q[1], q
'''),
 dict(id="C12-prompt-not-recorded", property="C12",
      needs="a login that asks for offline_access without stating a prompt",
      breaks="what is recorded for the session is not what was sent",
      edits=[("oidc/authorization.py", """        if 'offline_access' in req['scope']:
            if 'prompt' not in req:
                req['prompt'] = 'consent'

        _context.state.store_item(req, 'auth_request', req['state'])
""", """        _context.state.store_item(req, 'auth_request', req['state'])

        if 'offline_access' in req['scope']:
            if 'prompt' not in req:
                req['prompt'] = 'consent'
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p", req_args={"scope": ["openid", "offline_access"]})
q = single(query_of(b["url"]))
rec = h.get_session_information(b["state"])["auth_request"]
assert q["prompt"] == rec.get("prompt"), (q, rec)
'''),
 dict(id="C12-falsy-caller-value", property="C12",
      needs="the caller asks for max_age 0 while the configuration has another max_age",
      breaks="the configured value is sent instead of the caller's",
      edits=[("service.py", """            if prop in ar_args:
                continue
""", """            if ar_args.get(prop):
                continue
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
c = client_conf(o)
c["behaviour"]["default_max_age"] = 3600
sv = services()
sv["authorization"]["kwargs"] = {"conf": {"request_args": {"max_age": 3600}}}
h = handler({"p": c}, services=sv)
b = h.begin("p", req_args={"max_age": 0})
q = single(query_of(b["url"]))
assert q["max_age"] == "0", q
'''),
 dict(id="C12-hybrid-code-callback", property="C12",
      needs="a hybrid response type and a client with one redirect URI for each kind of response",
      breaks="the redirect URI does not match the response type",
      edits=[("oauth2/utils.py", """        elif response_type == 'code' or response_type == ["code"]:
""", """        elif response_type and response_type[0:4] in ('code', ["code"], ["code", "token"]):
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt=["code", "code id_token"], dynamic=True)})
q = single(query_of(h.begin("p", req_args={"response_type": "code id_token"})["url"]))
assert "/authz_im_cb/" in q["redirect_uri"], q
'''),
]
