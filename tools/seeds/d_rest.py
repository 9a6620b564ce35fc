"""C19 - C25"""
SEEDS = [
 dict(id="C19-hint-oldest", property="C19",
      needs="a login with ID Tokens from the redirect and from the token endpoint or a refresh",
      breaks="the hint is not the most recent ID Token",
      edits=[("oidc/end_session.py", """            ['auth_response', 'token_response', 'refresh_token_response'],
            orig=True
""", """            ['refresh_token_response', 'auth_response', 'token_response'],
            orig=True
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
o.refresh_idt = True
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
h.refresh_access_token(b["state"])
q = single(query_of(h.logout(b["state"])["url"]))
assert len(lg.id_tokens) == 2
assert q["id_token_hint"] == lg.id_tokens[-1][0], "an old hint"
'''),
 dict(id="C19-state-given", property="C19",
      needs="the end session service is used with a state of the application's own",
      breaks="a logout state that the caller provided does not resolve to the login",
      edits=[("oidc/end_session.py", """            request_args['state'] = rndstr(32)

        # As a side effect bind logout state to session state
        self.client_get("service_context").state.store_logout_state2state(request_args['state'],
                                                                          kwargs['state'])
""", """            request_args['state'] = rndstr(32)

            # As a side effect bind logout state to session state
            self.client_get("service_context").state.store_logout_state2state(
                request_args['state'], kwargs['state'])
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
c = h.issuer2rp[o.issuer]
p = c.client_get("service", "end_session").get_request_parameters(state=b["state"], request_args={"state": "my-logout-state"})
q = single(query_of(p["url"]))
try:
    got = ctx(c).state.get_state_by_logout_state(q["state"])
except KeyError:
    got = None
assert got == b["state"], got
'''),
 dict(id="C19-last-return", property="C19",
      needs="several registered post logout redirect URIs and a caller that asks for one of them",
      breaks="the caller's return address is replaced by a registered one",
      edits=[("oidc/end_session.py", """        if 'post_logout_redirect_uri' not in request_args:
            _context""", """        if request_args.get('post_logout_redirect_uri', '').split('?')[0] not in (
                self.client_get("service_context").register_args.get('post_logout_redirect_uris') or [
                    request_args.get('post_logout_redirect_uri', '').split('?')[0] or None]):
            _context""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, post_logout_redirect_uris=["https://rp.example.com/a", "https://rp.example.com/b?c=d"])})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
q = single(query_of(h.logout(b["state"], post_logout_redirect_uri="https://rp.example.com/b?c=d")["url"]))
assert q["post_logout_redirect_uri"] == "https://rp.example.com/b?c=d", q
'''),
 dict(id="C20-expiry-not-dumped", property="C20",
      needs="a dynamically registered client that is dumped and restored",
      breaks="the expiry of the client secret is lost by a dump",
      edits=[("service_context.py", """        "client_secret_expires_at": 0,
        'clock_skew': None,
""", """        'clock_skew': None,
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
o.reg_hook = lambda req: response(201, dict(json.loads(req.body), client_id="c", client_secret="s" * 40, client_secret_expires_at=4102444800))
h = handler({"p": client_conf(o, dynamic=True)})
h.begin("p")
c = h.issuer2rp[o.issuer]
d = json.loads(json.dumps(c.client_get("service_context").dump()))
c2 = h.init_client("p")
ctx(c2).load(d)
assert ctx(c2).client_secret_expires_at == ctx(c).client_secret_expires_at, ctx(c2).client_secret_expires_at
'''),
 dict(id="C20-skew-not-dumped", property="C20",
      needs="a client whose clock skew was changed at run time, restored from a dump",
      breaks="the clock skew that is allowed for is lost by a dump",
      edits=[("service_context.py", """        'clock_skew': None,
        "config": None,
""", """        "config": None,
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
h.begin("p")
c = h.issuer2rp[o.issuer]
ctx(c).clock_skew = 120
d = json.loads(json.dumps(c.client_get("service_context").dump()))
c2 = h.init_client("p")
ctx(c2).load(d)
assert ctx(c2).clock_skew == 120, ctx(c2).clock_skew
'''),
 dict(id="C20-callback-not-dumped", property="C20",
      needs="a dynamically registered client that is restored from a dump before it starts its next login",
      breaks="the callbacks of the client are lost by a dump",
      edits=[("service_context.py", """        'behaviour': None,
        'callback': None,
""", """        'behaviour': None,
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, dynamic=True)})
h.begin("p")
c = h.issuer2rp[o.issuer]
d = json.loads(json.dumps(c.client_get("service_context").dump()))
c2 = h.init_client("p")
ctx(c2).load(d)
assert ctx(c2).callback == ctx(c).callback, (ctx(c2).callback, ctx(c).callback)
'''),
 dict(id="C21-method-args", property="C21",
      needs="a service configured with pre or post construct arguments, used more than once",
      breaks="the run time arguments end up in the service configuration and affect later requests",
      edits=[("service.py", """            _args = self.conf[context].copy()
""", """            _args = self.conf[context]
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
sv = services()
sv["authorization"]["kwargs"] = {"conf": {"pre_construct": {"foo": "bar"}}}
ref = copy.deepcopy(sv)
h = handler({"p": client_conf(o)}, services=sv)
b = h.begin("p", behaviour_args={"x": 1})
assert sv == ref, sv["authorization"]
'''),
 dict(id="C21-services-shared", property="C21",
      needs="two clients whose service definitions are given as classes instead of names",
      breaks="clients share modifiers",
      edits=[("service.py", """        # pull in all the modifiers
        self.pre_construct = []
        self.post_construct = []
        self.construct_extra_headers = []
        self.post_parse_process = []
""", """        # pull in all the modifiers
        self.pre_construct = []
        self.post_construct = []
        self.construct_extra_headers = self.__class__.__dict__.get('_extra_headers')
        if self.construct_extra_headers is None:
            self.construct_extra_headers = self.__class__._extra_headers = []
        self.post_parse_process = []
""")],
      demo='''
from op import *
w = World().__enter__()
o, o1 = OP(w, 0), OP(w, 1)
o.meta["dpop_signing_alg_values_supported"] = ["ES256"]
o1.meta["dpop_signing_alg_values_supported"] = ["ES256"]
h = handler({"a": client_conf(o, add_ons={"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}}), "b": client_conf(o1)})
h.begin("a")
b = h.begin("b")
lg, r = o1.authorize(b["url"])
try:
    res = h.finalize(o1.issuer, r)
except KeyError as err:
    raise AssertionError(err)
assert not [q for q in w.log if "dpop" in q.headers and q.netloc == o1.netloc], "another client's add-on is used"
'''),
 dict(id="C22-jti-from-time", property="C22",
      needs="DPoP proofs made within a short time",
      breaks="identifiers of proofs are derived from the time",
      edits=[("oauth2/add_on/dpop.py", """        "jti": uuid.uuid4().hex,
""", """        "jti": uuid.uuid1().hex,
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"dpop_signing_alg_values_supported": ["ES256"]})
h = handler({"a": client_conf(o, add_ons={"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}})})
jtis = []
import base64
for i in range(4):
    b = h.begin("a")
    lg, r = o.authorize(b["url"])
    mark = len(w.log)
    h.finalize(o.issuer, r)
    for q in w.since(mark):
        for k, v in q.headers.items():
            if k.lower() == "dpop":
                p = v.split(".")[1]
                jtis.append(json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))["jti"])
assert len(set(j[20:] for j in jtis)) == len(jtis), jtis
'''),
 dict(id="C22-nonce-from-state", property="C22",
      needs="the nonce and the state of one login",
      breaks="the logout state is derived from the login's state, which is known to the provider",
      edits=[("oidc/end_session.py", """            request_args['state'] = rndstr(32)
""", """            request_args['state'] = kwargs['state'][::-1] or rndstr(32)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
a = [single(query_of(h.logout(b["state"])["url"]))["state"] for i in range(2)]
assert a[0] != a[1] and sorted(a[0]) != sorted(b["state"]), a
'''),
 dict(id="C22-short-nonce", property="C22",
      needs="the low level services are used without a nonce",
      breaks="the nonce is short enough to be guessed",
      edits=[("oidc/authorization.py", """                request_args["nonce"] = rndstr(32)
""", """                request_args["nonce"] = rndstr(6)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
h.begin("p")
c = h.issuer2rp[o.issuer]
st = ctx(c).state.create_state(o.issuer)
p = c.client_get("service", "authorization").get_request_parameters(request_args={"state": st, "response_type": "code", "scope": ["openid"], "redirect_uri": "https://rp.example.com/cb0"})
assert len(single(query_of(p["url"]))["nonce"]) >= 16, p["url"]
'''),
 dict(id="C23-secret-left", property="C23",
      needs="a refresh request that names a client secret but no client id",
      breaks="the client secret is sent in the body of a refresh request",
      edits=[("oauth2/client_credentials/cc_refresh_access_token.py", """        for attr in ['client_id', 'client_secret']:
            try:
                del request_args[attr]
            except KeyError:
                pass
""", """        try:
            for attr in ['client_id', 'client_secret']:
                del request_args[attr]
        except KeyError:
            pass
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
from oidcrp.oauth2 import Client
sv = {"token": {"class": "oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken"}, "refresh": {"class": "oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken"}}
c = Client(config={"client_id": "", "client_secret": "very-secret", "issuer": o.issuer, "provider_info": o.metadata()}, services=sv)
from oidcmsg.oauth2 import AccessTokenResponse
ctx(c).state.store_item(AccessTokenResponse(access_token="at", token_type="Bearer", refresh_token="rt"), "token_response", "cc")
p = c.client_get("service", "refresh_token").get_request_parameters(request_args={"client_secret": "very-secret"}, state="cc", authn_method="")
assert "very-secret" not in p["body"], p["body"]
'''),
 dict(id="C23-no-expiry-for-zero", property="C23",
      needs="a token response with expires_in 0",
      breaks="a token that expires at once is recorded without expiry",
      edits=[("oauth2/client_credentials/cc_access_token.py", """        if 'expires_in' in resp:
            resp""", """        if resp.get('expires_in'):
            resp""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
o.token_hook = lambda req: response(200, {"access_token": "at", "token_type": "Bearer", "expires_in": 0})
from oidcrp.oauth2 import Client
sv = {"token": {"class": "oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken"}}
c = Client(config={"client_id": "c", "client_secret": "very-secret", "issuer": o.issuer, "provider_info": o.metadata()}, services=sv)
r = c.do_request("accesstoken", request_args={"grant_type": "client_credentials"}, state="cc")
from oidcmsg.message import Message
i = ctx(c).state.get_item(Message, "token_response", "cc")
assert "__expires_at" in i, i.to_dict()
'''),
 dict(id="C23-redirect-from-context", property="C23",
      needs="a plain OAuth2 client with several redirect URIs and a login that uses another than the first",
      breaks="the token request names another redirect URI than the login used",
      edits=[("oauth2/access_token.py", """        if "grant_type" not in _args:
            _args["grant_type"] = "authorization_code"
""", """        if "grant_type" not in _args:
            _args["grant_type"] = "authorization_code"
            if _context.redirect_uris:
                _args["redirect_uri"] = _context.redirect_uris[0]
"""), ("oauth2/access_token.py", """        if request_args is None:
            request_args = _args
        else:
            _args.update(request_args)
            request_args = _args

        return request_args, post_args
""", """        if request_args:
            _args.update(request_args)

        return _args, post_args
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
from oidcrp.oauth2 import Client
sv = {"authorization": {"class": "oidcrp.oauth2.authorization.Authorization"}, "token": {"class": "oidcrp.oauth2.access_token.AccessToken"}}
c = Client(config={"client_id": "c", "client_secret": "very-secret", "issuer": o.issuer, "provider_info": o.metadata(), "redirect_uris": ["https://rp.example.com/1", "https://rp.example.com/2"], "behaviour": {"response_types": ["code"]}}, services=sv)
st = ctx(c).state.create_state(o.issuer)
a = c.client_get("service", "authorization").get_request_parameters(request_args={"state": st, "response_type": "code", "redirect_uri": "https://rp.example.com/2"})
from oidcmsg.oauth2 import AuthorizationResponse
ctx(c).state.store_item(AuthorizationResponse(code="thecode", state=st), "auth_response", st)
p = c.client_get("service", "accesstoken").get_request_parameters(request_args={}, state=st)
from urllib.parse import parse_qs
assert parse_qs(p["body"])["redirect_uri"] == ["https://rp.example.com/2"], p["body"]
'''),
 dict(id="C24-defaults-changed", property="C24",
      needs="a call with its own HTTP parameters followed by one without",
      breaks="parameters of one request are used for later ones",
      edits=[("http.py", """        _kwargs = copy.copy(self.request_args)
""", """        _kwargs = self.request_args
""")],
      demo='''
from op import *
from oidcrp.http import HTTPLib
w = World().__enter__()
w.serve("a.example.org", lambda req: response(200, "{}"))
lib = HTTPLib({"timeout": 3})
lib("https://a.example.org/", "POST", data="secret=x", headers={"Authorization": "Bearer t"}, timeout=9)
lib("https://a.example.org/", "GET")
assert "Authorization" not in w.log[-1].headers and w.log[-1].kwargs["timeout"] == 3, w.log[-1]
'''),
 dict(id="C24-session-path", property="C24",
      needs="two cookies with the same name and different paths",
      breaks="removing a cookie removes another one",
      edits=[("util.py", """                cookiejar.clear(domain=std_attr["domain"],
                                path=std_attr["path"],
                                name=std_attr["name"])
""", """                for _path in list(cookiejar._cookies[std_attr["domain"]]):
                    if _path.startswith(std_attr["path"]):
                        cookiejar._cookies[std_attr["domain"]][_path].pop(std_attr["name"], None)
""")],
      demo='''
from http.cookiejar import CookieJar
from http.cookies import SimpleCookie
from oidcrp.util import set_cookie
j = CookieJar()
set_cookie(j, SimpleCookie("a=1; Path=/; Domain=x.org"))
set_cookie(j, SimpleCookie("a=2; Path=/sub; Domain=x.org"))
set_cookie(j, SimpleCookie("a=; Path=/; Domain=x.org; Max-Age=0"))
assert [(c.path, c.value) for c in j] == [("/sub", "2")], list(j)
'''),
 dict(id="C24-quotes-stripped", property="C24",
      needs="a cookie value that is one quotation mark, or has one at an end only",
      breaks="the value of a cookie is changed",
      edits=[("util.py", """        if _tmp.startswith('"') and _tmp.endswith('"'):
            std_attr["value"] = _tmp[1:-1]
""", """        if _tmp.startswith('"') or _tmp.endswith('"'):
            std_attr["value"] = _tmp.strip('"')
""")],
      demo='''
from http.cookiejar import CookieJar
from http.cookies import SimpleCookie
from oidcrp.util import set_cookie
j = CookieJar()
k = SimpleCookie()
k["a"] = 'x"y'
set_cookie(j, SimpleCookie('a="x\\\\"\\\\""; Path=/'))
got = [c.value for c in j]
assert got == ['x\\\\"\\\\"'], got
'''),
 dict(id="C25-fragment-dropped", property="C25",
      needs="an endpoint URL with a fragment, or a DELETE request",
      breaks="DELETE requests lose their parameters",
      edits=[("util.py", """    if method in ["GET", "DELETE"]:
        if req.keys():
""", """    if method == "GET":
        if req.keys():
""")],
      demo='''
from oidcrp.util import get_http_url
from oidcmsg.message import Message
u = get_http_url("https://x.org/a?b=c", Message(d="e"), method="DELETE")
assert "d=e" in u, u
'''),
 dict(id="C25-key-without-cert", property="C25",
      needs="a client key and certificate in the configuration",
      breaks="the client certificate and key are given in the wrong order",
      edits=[("util.py", """        if _key:
            params['cert'] = (_cert, _key)
        else:
            params['cert'] = _cert
""", """        params['cert'] = (_cert, _key or _cert)
""")],
      demo='''
from oidcrp.util import get_http_params
assert get_http_params({"client_cert": "c.pem"})["cert"] == "c.pem"
'''),
 dict(id="C25-double-slash", property="C25",
      needs="a path that starts with two slashes, or is empty",
      breaks="more than the one slash is removed",
      edits=[("util.py", """        if path.startswith('/'):
            return '{}{}'.format(url, path[1:])
""", """        if path.startswith('/'):
            return '{}{}'.format(url, path.lstrip('/'))
""")],
      demo='''
from oidcrp.util import add_path
assert add_path("https://x.org/", "//a") == "https://x.org//a"
'''),
]
