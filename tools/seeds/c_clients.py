"""C13 - C18"""
SEEDS = [
 dict(id="C13-issuer-prefix", property="C13",
      needs="provider information that states an issuer which is a sub path of the one asked for (a hosted tenant answering for the host)",
      breaks="provider information of another issuer on the same host is adopted",
      edits=[("oauth2/provider_info_discovery.py", """            if _issuer != _pcr_issuer:
""", """            if not _pcr_issuer.startswith(_issuer):
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"issuer": "https://op0.example.org/tenant-b"})
h = handler({"https://op0.example.org": client_conf(o)})
try:
    h.begin("https://op0.example.org")
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError("adopted")
'''),
 dict(id="C13-keys-under-asked-issuer", property="C13",
      needs="an issuer that is asked for without the trailing slash it states itself (or the other way around)",
      breaks="the provider's keys are bound to another issuer than the one the client uses",
      edits=[("oauth2/provider_info_discovery.py", """            _keyjar.load_keys(_pcr_issuer, jwks_uri=resp['jwks_uri'])
""", """            _keyjar.load_keys(_context.issuer, jwks_uri=resp['jwks_uri'])
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, issuer="https://op0.example.org/")
h = handler({"https://op0.example.org": dict(client_conf(o), issuer="https://op0.example.org")})
b = h.begin("https://op0.example.org")
lg, r = o.authorize(b["url"])
try:
    res = h.finalize(b.get("issuer", o.issuer), r)
except Exception as e:
    raise AssertionError("a good login failed %r" % e)
assert "error" not in res, res
'''),
 dict(id="C14-wrong-enc-list", property="C14",
      needs="a client that prefers a content encryption algorithm for user info",
      breaks="the preference is compared with what the provider supports for ID Tokens",
      edits=[("oidc/provider_info_discovery.py", """    "userinfo_encrypted_response_enc":
        "userinfo_encryption_enc_values_supported",
""", """    "userinfo_encrypted_response_enc":
        "id_token_encryption_enc_values_supported",
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"userinfo_encryption_enc_values_supported": ["A256GCM"], "id_token_encryption_enc_values_supported": ["A128GCM"]})
c = client_conf(o, dynamic=True)
c["client_preferences"]["userinfo_encrypted_response_enc"] = ["A128GCM", "A256GCM"]
h = handler({"p": c})
h.begin("p")
got = ctx(h.issuer2rp[o.issuer]).behaviour["userinfo_encrypted_response_enc"]
assert got == "A256GCM", got
'''),
 dict(id="C15-callback-per-host", property="C15",
      needs="two providers on one host (multi tenant issuers)",
      breaks="two providers share the callback URIs",
      edits=[("oidc/registration.py", """    _hash.update(as_bytes(issuer))
""", """    # The scheme, a trailing slash or a default port makes no difference
    _hash.update(as_bytes(urlsplit(issuer).hostname or issuer))
"""), ("oidc/registration.py", """from typing import Optional

from cryptojwt.utils import as_bytes
""", """from typing import Optional
from urllib.parse import urlsplit

from cryptojwt.utils import as_bytes
""")],
      demo='''
from op import *
w = World().__enter__()
from oidcrp.oidc.registration import create_callbacks
a = create_callbacks("https://idp.example.org/tenant-a", b"seed", "https://rp.example.com", code=True)
b = create_callbacks("https://idp.example.org/tenant-b", b"seed", "https://rp.example.com", code=True)
assert a["code"] != b["code"], (a, b)
'''),
 dict(id="C15-code-token-grant", property="C15",
      needs="a client that registers for the response type 'code token' only",
      breaks="the implicit grant, which the response type needs, isn't announced",
      edits=[("oidc/registration.py", """    'code token': ['authorization_code', 'implicit'],
""", """    'code token': ['authorization_code'],
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, "code token", dynamic=True)})
h.begin("p")
reg = json.loads(w.since(0, path="/register")[0].body)
assert set(reg["grant_types"]) >= {"authorization_code", "implicit"}, reg
'''),
 dict(id="C16-last-link", property="C16",
      needs="a WebFinger response with more than one issuer link",
      breaks="not the first link with the issuer relation is adopted",
      edits=[("oidc/webfinger.py", """                    self.client_get("service_context").issuer = link['href']
                    break
""", """                    self.client_get("service_context").issuer = link['href']
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
R = "http://openid.net/specs/connect/1.0/issuer"
w.serve("users.example.net", lambda req: response(200, {"subject": "x", "links": [{"rel": R, "href": o.issuer}, {"rel": R, "href": "https://evil.example.org"}]}, "application/jrd+json"))
h = handler({"": {"client_id": "c", "client_secret": "s" * 40, "redirect_uris": ["https://rp.example.com/cb"], "behaviour": {"response_types": ["code"], "scope": ["openid"]}}})
c = h.do_webfinger("acct:a@users.example.net")
assert ctx(c).issuer == o.issuer, ctx(c).issuer
'''),
 dict(id="C16-rel-prefix", property="C16",
      needs="a WebFinger response with a link whose relation merely begins like the issuer relation",
      breaks="a link with another relation is adopted as issuer",
      edits=[("oidc/webfinger.py", """                if link['rel'] == self.rel:
""", """                if link['rel'].startswith(self.rel):
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
R = "http://openid.net/specs/connect/1.0/issuer"
w.serve("users.example.net", lambda req: response(200, {"subject": "x", "links": [{"rel": R + "_old", "href": "https://evil.example.org"}, {"rel": R, "href": o.issuer}]}, "application/jrd+json"))
h = handler({"": {"client_id": "c", "client_secret": "s" * 40, "redirect_uris": ["https://rp.example.com/cb"], "behaviour": {"response_types": ["code"], "scope": ["openid"]}}})
c = h.do_webfinger("acct:a@users.example.net")
assert ctx(c).issuer == o.issuer, ctx(c).issuer
'''),
 dict(id="C17-truncated-signature", property="C17",
      needs="a cookie whose signature is cut short",
      breaks="a cookie with part of a signature (even none) is accepted",
      edits=[("cookie.py", """    if len(a) != len(b):
        return False
""", """    if len(a) > len(b):
        return False
""")],
      demo='''
from oidcrp.cookie import make_cookie, parse_cookie
n, v = make_cookie("c", "admin", b"0123456789abcdef", timestamp="1000")
parts = v.split(";")[0].split("|")
forged = "c=root|1000|"
try:
    res = parse_cookie("c", b"0123456789abcdef", forged)
except Exception as e:
    res = None
assert not res or res[0] == "admin", res
'''),
 dict(id="C17-aad", property="C17",
      needs="an encrypted cookie whose time stamp is exchanged",
      breaks="the time stamp of an encrypted cookie can be changed without being detected",
      edits=[("cookie.py", """        ct = split_ctx_and_tag(aesgcm.encrypt(iv, bytes_load, bytes_timestamp))
""", """        ct = split_ctx_and_tag(aesgcm.encrypt(iv, bytes_load, name.encode("utf-8")))
"""), ("cookie.py", """        aad = timestamp.encode('utf-8')
""", """        aad = name.encode('utf-8')
""")],
      demo='''
from oidcrp.cookie import make_cookie, parse_cookie
n, v = make_cookie("c", "admin", b"0123456789abcdef", timestamp="1000", enc_key=b"fedcba9876543210")
k = v.replace("1000|", "2000|", 1)
assert k != v
try:
    res = parse_cookie("c", b"0123456789abcdef", k, b"fedcba9876543210")
except Exception as e:
    res = None
assert not res, res
'''),
 dict(id="C18-fallback-urlencoded", property="C18",
      needs="a 200 response whose body isn't the JSON it is said to be",
      breaks="an undecodable response is taken as a success if it can be read as form data",
      edits=[("service.py", """                    resp = self.response_cls().deserialize(
                        info, 'jwt', iss=_context.issuer, **kwargs)
                except Exception:
                    pass
""", """                    resp = self.response_cls().deserialize(
                        info, 'jwt', iss=_context.issuer, **kwargs)
                except Exception:
                    if '=' in info and '{' not in info:
                        resp = self.response_cls().deserialize(info, 'urlencoded')
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
o.userinfo_hook = lambda req: response(200, "sub=u1&admin=true", "application/json")
b = h.begin("p")
lg, r = o.authorize(b["url"])
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    assert "error" in res, res
'''),
 dict(id="C18-redirect-307", property="C18",
      needs="a token request answered with a 307 or 308",
      breaks="a redirect with a body is treated as a response",
      edits=[("oauth2/__init__.py", """        if 300 <= resp.status_code < 400:
            return {'http_response': resp}
""", """        if 300 <= resp.status_code < 307:
            return {'http_response': resp}
"""), ("oauth2/__init__.py", """        if reqresp.status_code in SUCCESSFUL:
""", """        if reqresp.status_code in SUCCESSFUL or reqresp.status_code > 306 and \\
                reqresp.status_code < 400 and 'location' not in reqresp.headers:
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
o.userinfo_hook = lambda req: response(308, {"sub": "u1", "admin": True})
b = h.begin("p")
lg, r = o.authorize(b["url"])
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    assert "error" in res, res
'''),
 dict(id="C13-static-endpoint-once", property="C13",
      needs="a client with static provider information that uses the PAR add-on or has another service whose endpoint name is derived",
      breaks="a service gets an endpoint of another service",
      edits=[("rp_handler.py", """                        if _srv.endpoint_name == key:
                            _srv.endpoint = val
""", """                        if _srv.endpoint_name and key.endswith(_srv.endpoint_name):
                            _srv.endpoint = val
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
pi = o.metadata()
pi["mtls_token_endpoint"] = "https://mtls.example.org/token"
pi["x_userinfo_endpoint"] = "https://mtls.example.org/userinfo"
h = handler({"p": client_conf(o, provider_info=pi)})
b = h.begin("p")
ends = {n: s.endpoint for n, s in h.issuer2rp[o.issuer].client_get("services").items()}
assert ends["accesstoken"] == pi["token_endpoint"], ends
assert ends["userinfo"] == pi["userinfo_endpoint"], ends
'''),
 dict(id="C13-jwks-beside-uri", property="C13",
      needs="provider information with an empty or unusable jwks_uri beside inline keys",
      breaks="the inline keys of the provider aren't loaded when jwks_uri is present but empty, or win over jwks_uri",
      edits=[("oauth2/provider_info_discovery.py", """        if 'jwks_uri' in resp:
            _keyjar.load_keys(_pcr_issuer, jwks_uri=resp['jwks_uri'])
        elif 'jwks' in resp:
            _keyjar.load_keys(_pcr_issuer, jwks=resp['jwks'])
""", """        if 'jwks' in resp:
            _keyjar.load_keys(_pcr_issuer, jwks=resp['jwks'])
        elif 'jwks_uri' in resp:
            _keyjar.load_keys(_pcr_issuer, jwks_uri=resp['jwks_uri'])
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"jwks": {"keys": [W.key("op1_rsa").serialize()]}})
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    raise AssertionError("a good login failed %r" % e)
assert "error" not in res, res
'''),
 dict(id="C13-pattern-per-issuer-class", property="C13",
      needs="an issuer with a trailing slash and a path",
      breaks="the metadata is fetched from the host's well known location, not the issuer's",
      edits=[("oauth2/provider_info_discovery.py", """        if _iss.endswith('/'):
            return OIDCONF_PATTERN.format(_iss[:-1])
""", """        if _iss.endswith('/'):
            return OIDCONF_PATTERN.format('/'.join(_iss.split('/')[:3]))
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, issuer="https://op0.example.org/tenant-a/")
h = handler({"p": client_conf(o)})
try:
    h.begin("p")
except Exception as e:
    print(repr(e))
urls = [c.url for c in w.since(0)]
assert urls[0] == "https://op0.example.org/tenant-a/.well-known/openid-configuration", urls
'''),
 dict(id="C14-acr-not-matched", property="C14",
      needs="a client that prefers several acr values and a provider that supports some of them",
      breaks="acr values that the provider doesn't support are part of the behaviour",
      edits=[("oidc/provider_info_discovery.py", """    "default_acr_values": "acr_values_supported",
    "subject_type": "subject_types_supported",
""", """    "subject_type": "subject_types_supported",
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"acr_values_supported": ["b"]})
c = client_conf(o, dynamic=True)
c["client_preferences"]["default_acr_values"] = ["a", "b"]
h = handler({"p": c})
h.begin("p")
got = ctx(h.issuer2rp[o.issuer]).behaviour["default_acr_values"]
assert got == ["b"], got
'''),
 dict(id="C14-request-object-alg", property="C14",
      needs="a provider that accepts other algorithms for request objects than it signs ID Tokens with",
      breaks="the preferred request object algorithm is compared with the wrong list",
      edits=[("oidc/provider_info_discovery.py", """    "request_object_signing_alg": "request_object_signing_alg_values_supported",
""", """    "request_object_signing_alg": "id_token_signing_alg_values_supported",
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, meta={"request_object_signing_alg_values_supported": ["RS384"], "id_token_signing_alg_values_supported": ["RS256", "ES256"]})
c = client_conf(o, dynamic=True)
c["client_preferences"]["request_object_signing_alg"] = ["ES256", "RS384"]
h = handler({"p": c})
h.begin("p")
got = ctx(h.issuer2rp[o.issuer]).behaviour["request_object_signing_alg"]
assert got == "RS384", got
'''),
 dict(id="C15-jwks-beside-jwks-uri", property="C15",
      needs="a client that has both a jwks_uri and a jwks",
      breaks="both are registered, the specification allows one",
      edits=[("oidc/registration.py", """            del request_args['jwks']

        return request_args
""", """            request_args['jwks'] = dict(request_args['jwks'])

        return request_args
"""), ("oidc/registration.py", """            del request_args['jwks']  # only one of jwks_uri and jwks allowed
        return request_args, {}
""", """            logger.info('Both jwks_uri and jwks')
        return request_args, {}
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, dynamic=True, jwks_uri="https://rp.example.com/j.json")})
h.begin("p", behaviour_args={"jwks": {"keys": [W.key("rp_rsa").serialize()]}})
reg = json.loads(w.since(0, path="/register")[0].body)
assert not ("jwks" in reg and "jwks_uri" in reg), sorted(reg)
'''),
 dict(id="C16-acct-query", property="C16",
      needs="an acct identifier with a query part",
      breaks="something that isn't the host part is asked",
      edits=[("oidc/webfinger.py", """                    for c in ['/', '?']:
""", """                    for c in ['/']:
""")],
      demo='''
from op import *
w = World().__enter__()
h = handler({"": {"client_id": "c", "client_secret": "s" * 40, "redirect_uris": ["https://rp.example.com/cb"], "behaviour": {"response_types": ["code"], "scope": ["openid"]}}})
from oidcrp.oidc.webfinger import WebFinger
c = h.init_client("")
q = c.client_get("service", "webfinger").query("acct:joe@example.org/x?y")
assert q.startswith("https://example.org/.well-known/webfinger?"), q
'''),
 dict(id="C17-dealer-ttl", property="C17",
      needs="create_cookie with a lifetime of zero",
      breaks="a cookie with no lifetime lives for the default number of minutes",
      edits=[("cookie.py", """        elif ttl < 0:
            ttl = self.cookie_ttl
""", """        elif ttl <= 0:
            ttl = self.cookie_ttl
""")],
      demo='''
from oidcrp.cookie import CookieDealer
import time
from http.cookies import SimpleCookie
from email.utils import parsedate_to_datetime
class S: pass
s = S(); s.symkey = "0123456789abcdef"; s.seed = b"fedcba9876543210"; s.cookie_name = "n"
d = CookieDealer(s)
n, v = d.create_cookie("v", "t", "n", ttl=0)
e = SimpleCookie(v)["n"]["expires"]
assert not e or parsedate_to_datetime(e.replace("-", " ")).timestamp() < time.time() + 100, e
'''),
 dict(id="C18-error-and-token", property="C18",
      needs="an error response that isn't JSON although it's said to be, with a body in the expected other type",
      breaks="a server error (5xx) whose body looks like a response is used as one",
      edits=[("oauth2/__init__.py", """        elif reqresp.status_code == 500:
            logger.error("(%d) %s" % (reqresp.status_code, reqresp.text))
            raise ParseError("ERROR: Something went wrong: %s" % reqresp.text)
""", """        elif reqresp.status_code >= 500:
            logger.error("(%d) %s" % (reqresp.status_code, reqresp.text))
            try:
                return service.parse_response(reqresp.text, 'json', state)
            except Exception:
                raise ParseError("ERROR: Something went wrong: %s" % reqresp.text)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
o.userinfo_hook = lambda req: response(502, {"sub": lg.sub, "admin": True})
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    assert "error" in res, res
'''),
]
