"""Keys, steps, and what was left"""
ONE = '''
from op import *
from clock import Clock
w = World().__enter__()
'''
MODS = ONE + """
import sys, types
seen = []
m = types.ModuleType("modifiers")
def first(request_args=None, **kw):
    seen.append("first")
    return request_args
def second(request_args=None, **kw):
    seen.append("second")
    return request_args
m.first, m.second = first, second
sys.modules["modifiers"] = m
o = OP(w, 0)
"""
R, S, CA, AZ, SI, U = "rp_handler.py", "service.py", "client_auth.py", "oidc/authorization.py", "state_interface.py", "util.py"
SEEDS = [
 dict(id="C07-configured-flow", property="C07",
      needs="a login that was begun with another response type than the client is configured for",
      breaks="how the login is completed follows the configuration of the client and not what the login asked for",
      edits=[(R, "        _resp_type = set(authreq['response_type'])", "        _resp_type = set(self.get_response_type(client).split(' '))")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, "id_token")})
b = h.begin("p", req_args={"response_type": ["code"]})
lg, r = o.authorize(b["url"])
try:
    out = h.finalize(o.issuer, r)
except Exception as e:
    out = {"error": repr(e)}
assert out.get("id_token") and out.get("token") == lg.ats[-1], out
'''),
 dict(id="C34-older-token", property="C34",
      needs="a hybrid flow that brings an access token with the redirect and the tokens asked for in a step of its own, then user info by session key",
      breaks="user info is asked for with the older access token",
      edits=[(R, "                ['auth_response', 'token_response', 'refresh_token_response'])\n            access_token",
              "                ['token_response', 'refresh_token_response', 'auth_response'])\n            access_token")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, "code token")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
c = h.issuer2rp[o.issuer]
a = h.finalize_auth(c, o.issuer, dict(r))
h.get_tokens(b["state"], c)
h.get_user_info(b["state"], c)
got = [q.headers.get("Authorization") for q in w.log if q.path.endswith("userinfo")]
assert got == ["Bearer " + lg.ats[-1]], (got, lg.ats)
'''),
 dict(id="C33-keys-of-issuer-as-own", property="C33",
      needs="the keys of a provider configured as a URL in the provider information",
      breaks="the provider's keys become those of the client; ID Tokens of the provider can't be verified",
      edits=[(R, "                        for _iss, _url in _spec.items():\n                            _kj.add_url(_iss, _url)",
              "                        for _iss, _url in _spec.items():\n                            _kj.add_url('', _url)")],
      demo=ONE + '''
o = OP(w, 0)
pi = o.metadata()
pi["keys"] = {"url": {o.issuer: pi.pop("jwks_uri")}}
h = handler({"p": client_conf(o, provider_info=pi)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
try:
    out = h.finalize(o.issuer, r)
except Exception as e:
    out = {"error": repr(e)}
assert "id_token" in out, out
'''),
 dict(id="C33-provider-file-as-own", property="C33",
      needs="the keys of a provider in a JWKS file named in the provider information",
      breaks="the provider's keys become those of the client; ID Tokens of the provider can't be verified",
      edits=[(R, "_kj.import_jwks_from_file(_name, _context.get('issuer'))", "_kj.import_jwks_from_file(_name, '')")],
      demo=ONE + '''
import json, tempfile, os
o = OP(w, 0)
pi = o.metadata()
pi.pop("jwks_uri")
d = tempfile.mkdtemp()
fn = os.path.join(d, "op.json")
with open(fn, "w") as f:
    json.dump(W.public_jwks("op0_rsa", "op0_ec256"), f)
pi["keys"] = {"file": {"jwks": fn}}
h = handler({"p": client_conf(o, provider_info=pi)})
try:
    b = h.begin("p")
    lg, r = o.authorize(b["url"])
    out = h.finalize(o.issuer, r)
except Exception as e:
    out = {"error": repr(e)}
import shutil
shutil.rmtree(d)
assert "id_token" in out, out
'''),
 dict(id="C11-absolute-expiry", property="C11",
      needs="a request object that was asked to be valid for some time only",
      breaks="the lifetime is stated as the point in time: the request object expired in 1970",
      edits=[(AZ, "            req['exp'] = utc_time_sans_frac() + int(expires_in)", "            req['exp'] = int(expires_in)")],
      demo=ONE + '''
import time
from cryptojwt.jws.jws import factory
o = OP(w, 0, meta={"request_parameter_supported": True, "request_object_signing_alg_values_supported": ["RS256"]})
conf = client_conf(o)
conf["behaviour"]["request_object_signing_alg"] = "RS256"
h = handler({"p": conf})
b = h.begin("p", behaviour_args={"request_param": "request", "expires_in": 600})
obj = factory(single(query_of(b["url"]))["request"]).jwt.payload()
assert obj.get("exp", 1e12) > time.time(), obj
'''),
 dict(id="C11-audience-endpoint", property="C11",
      needs="a signed request object",
      breaks="its audience is the authorization endpoint and not the provider it was made for",
      edits=[(AZ, "                kwargs['recv'] = _srv_cntx.provider_info['issuer']", "                kwargs['recv'] = _srv_cntx.provider_info['authorization_endpoint']")],
      demo=ONE + '''
from cryptojwt.jws.jws import factory
o = OP(w, 0, meta={"request_parameter_supported": True, "request_object_signing_alg_values_supported": ["RS256"]})
conf = client_conf(o)
conf["behaviour"]["request_object_signing_alg"] = "RS256"
h = handler({"p": conf})
b = h.begin("p", behaviour_args={"request_param": "request"})
obj = factory(single(query_of(b["url"]))["request"]).jwt.payload()
aud = obj.get("aud", o.issuer)
assert aud in (o.issuer, [o.issuer]), obj
'''),
 dict(id="C12-prompt-overridden", property="C12",
      needs="offline access asked for together with a prompt that isn't consent",
      breaks="the prompt the application asked for is replaced",
      edits=[(AZ, """            if 'prompt' not in req:
                req['prompt'] = 'consent'""", """            if 'consent' not in req.get('prompt', ''):
                req['prompt'] = 'consent'""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p", req_args={"scope": ["openid", "offline_access"], "prompt": "login"})
q = single(query_of(b["url"]))
assert q["prompt"] == "login", q
'''),
 dict(id="C12-empty-argument", property="C12",
      needs="an argument whose value counts as nothing, such as max_age 0, where the client has a value of its own",
      breaks="the caller's value is replaced by what is known about the client",
      edits=[(S, "            if prop in ar_args:", "            if ar_args.get(prop):")],
      demo=ONE + '''
o = OP(w, 0)
conf = client_conf(o)
h = handler({"p": conf})
b = h.begin("p")
c = h.issuer2rp[o.issuer]
srv = c.client_get("service", "authorization")
srv.conf["request_args"] = {"max_age": 3600}
req = srv.construct(request_args={"state": b["state"], "max_age": 0, "nonce": "n"}, state=b["state"])
assert req["max_age"] == 0, req
'''),
 dict(id="C04-session-again", property="C04",
      needs="a session made with a key that was used before",
      breaks="the new session has the record of the earlier one",
      edits=[(SI, "        self._db[key] = _state.to_json()\n        return key",
              "        if key not in self._db:\n            self._db[key] = _state.to_json()\n        return key")],
      demo='''
from oidcrp.state_interface import StateInterface
s = StateInterface()
s.create_state("https://a.example.org", key="k")
s.create_state("https://b.example.org", key="k")
assert s.get_iss("k") == "https://b.example.org", s.get_iss("k")
'''),
 dict(id="C24-one-jar", property="C24",
      needs="two HTTP clients in a process, cookies set at one of them",
      breaks="cookies a server sent to one client are sent by the other",
      edits=[("http.py", "        self.cookiejar = FileCookieJar()", "        self.cookiejar = COOKIEJAR"),
             ("http.py", "class HTTPLib", "COOKIEJAR = FileCookieJar()\n\n\nclass HTTPLib")],
      demo='''
from oidcrp.http import HTTPLib
a, b = HTTPLib(), HTTPLib()
a.set_cookie(type("R", (), {"headers": {"set-cookie": "s=1; Domain=op.example.org; Path=/; Max-Age=600"}}))
assert a._cookies(), a._cookies()
assert b._cookies() == {}, b._cookies()
'''),
 dict(id="C22-assertion-id-clock", property="C22",
      needs="two client assertions made in the same second",
      breaks="the identifiers of client assertions repeat and can be foretold",
      edits=[(CA, "aud=audience, jti=rndstr(32),", "aud=audience, jti='{}.{}'.format(client_id, _now),")],
      demo='''
from op import *
from oidcrp.client_auth import assertion_jwt
from cryptojwt.jws.jws import factory
ids = {factory(assertion_jwt("c", [W.key("rp_rsa")], "https://op.example.org/token", "RS256")).jwt.payload()["jti"] for _ in range(20)}
assert len(ids) == 20, ids
'''),
 dict(id="C06-active-at-expiry", property="C06",
      needs="the check whether the authentication is active at the very second the ID Token expires",
      breaks="an authentication counts as active whose ID Token isn't valid any more",
      edits=[(R, "            return _now < exp", "            return _now <= exp")],
      demo=ONE + '''
with Clock(1700000000) as clock:
    o = OP(w, 0)
    o.idt_life = 60
    h = handler({"p": client_conf(o)})
    b = h.begin("p")
    lg, r = o.authorize(b["url"])
    h.finalize(o.issuer, r)
    assert h.has_active_authentication(b["state"])
    clock.now = 1700000060
    assert not h.has_active_authentication(b["state"])
'''),
 dict(id="C35-modifiers-reversed", property="C35",
      needs="a service definition with two modifiers of which the second depends on what the first did",
      breaks="modifiers are run before those named earlier and the service's own",
      edits=[(S, "                construct.append(util.importer(func))", "                construct.insert(0, util.importer(func))")],
      demo=MODS + '''
spec = services()
spec["userinfo"]["post_functions"] = [{"function": "modifiers.first"}, {"function": "modifiers.second"}]
h = handler({"p": client_conf(o)}, services=spec)
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
assert seen == ["first", "second"], seen
'''),
 dict(id="C35-modifiers-cut", property="C35",
      needs="a list of modifiers with an entry without function before others",
      breaks="the modifiers after that entry are never run",
      edits=[(S, "            try:\n                func = meth['function']\n            except KeyError:\n                pass",
              "            try:\n                func = meth['function']\n            except KeyError:\n                break")],
      demo=MODS + '''
spec = services()
spec["userinfo"]["post_functions"] = [{"comment": "x"}, {"function": "modifiers.first"}]
h = handler({"p": client_conf(o)}, services=spec)
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
assert seen == ["first"], seen
'''),
 dict(id="C35-arguments-kept", property="C35",
      needs="arguments for the modifiers of a service in its definition, and two logins",
      breaks="what a request was made with is kept in the definition",
      edits=[(S, "            _args = self.conf[context].copy()", "            _args = self.conf[context]")],
      demo=ONE + '''
o = OP(w, 0)
spec = services()
args = {"x": 1}
spec["authorization"]["kwargs"] = {"conf": {"pre_construct": args}}
h = handler({"p": client_conf(o)}, services=spec)
h.begin("p")
assert args == {"x": 1}, args
'''),
 dict(id="C35-method-ignored", property="C35",
      needs="an HTTP method in the definition of a service",
      breaks="requests are sent with the class's own method",
      edits=[(S, "'default_authn_method', 'http_method',", "'default_authn_method',")],
      demo=ONE + '''
o = OP(w, 0)
spec = services()
spec["userinfo"]["kwargs"] = {"conf": {"http_method": "POST"}}
h = handler({"p": client_conf(o)}, services=spec)
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
m = [q.method for q in w.log if q.path.endswith("userinfo")]
assert m == ["POST"], m
'''),
 dict(id="C25-name-anywhere", property="C25",
      needs="an address of another host that has the base URL somewhere in it",
      breaks="a file name is made from an address that isn't one of the RP",
      edits=[("service_context.py", "        if not webname.startswith(self.base_url):", "        if self.base_url not in webname:")],
      demo='''
from oidcrp.service_context import ServiceContext
c = ServiceContext(config={"client_id": "x", "issuer": "https://op"}, base_url="https://rp.example.com/")
try:
    got = c.filename_from_webname("https://evil.example.org/?https://rp.example.com/")
except ValueError:
    got = None
assert got is None, got
'''),
 dict(id="C25-request-address-slash", property="C25",
      needs="two providers whose issuers differ in a trailing slash only",
      breaks="the address for request objects isn't unique for a provider",
      edits=[("service_context.py", "            _hash.update(as_bytes(self.provider_info['issuer']))", "            _hash.update(as_bytes(self.provider_info['issuer'].rstrip('/')))")],
      demo='''
from oidcrp.service_context import ServiceContext
def address(iss):
    c = ServiceContext(config={"client_id": "x", "issuer": iss}, base_url="https://rp.example.com")
    c.provider_info = {"issuer": iss}
    return c.generate_request_uris("/req")
assert address("https://op.example.org") != address("https://op.example.org/")
'''),
]
