"""C26 - C29"""
ENC = '''
from op import *
import base64, copy
from cryptojwt.jwe.jwe import JWE
import world as W
w = World().__enter__()
ALGS = ["RSA-OAEP", "RSA-OAEP-256", "RSA1_5"]
ENCS = ["A128CBC-HS256", "A256GCM"]
o = OP(w, 0, meta={"userinfo_encryption_alg_values_supported": ALGS, "userinfo_encryption_enc_values_supported": ENCS})
kj = W.keyjar_of("rp")
for owner in ("", "https://rp.example.com"):
    kj.import_jwks({"keys": [W.key(n).serialize(private=True) for n in ("rp_rsa", "rp_rsaenc")]}, owner)
conf = client_conf(o, "code")
conf["behaviour"].update(userinfo_encrypted_response_alg="RSA-OAEP", userinfo_encrypted_response_enc="A256GCM")
h = handler({"p": conf}, keyjar=kj)
use = ["RSA-OAEP", "A256GCM"]

def info(req):
    body = json.dumps({"sub": "u1", "email": "x@example.org"})
    r = response(200, JWE(body, alg=use[0], enc=use[1]).encrypt([copy.copy(W.key("rp_rsaenc"))]), "application/jwt")
    return r

o.userinfo_hook = info

def login():
    b = h.begin("p")
    lg, r = o.authorize(b["url"])
    try:
        return h.finalize(o.issuer, r)["userinfo"]["email"]
    except Exception as err:
        return repr(err)

assert login() == "x@example.org"
'''
TWO = '''
from op import *
import requests
w = World().__enter__()
o = OP(w, 0)
'''
SEEDS = [
 dict(id="C26-identity-first-token", property="C26",
      needs="an identity check after a refresh that brought a new ID Token",
      breaks="the identity check request carries the ID Token from the login instead of the newest",
      edits=[("oidc/check_id.py", """        request_args = self.client_get("service_context").state.multiple_extend_request_args(
            request_args, kwargs['state'], ['id_token'],
""", """        _si = self.client_get("service_context").state
        # Normally from the token endpoint
        _idt = _si.extend_request_args({}, Message, 'token_response', kwargs['state'],
                                       ['id_token'], orig=True)
        if _idt:
            return dict(request_args or {}, **_idt), {}

        request_args = _si.multiple_extend_request_args(
            request_args, kwargs['state'], ['id_token'],
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
o.refresh_idt = True
srv = services()
srv["check_id"] = {"class": "oidcrp.oidc.check_id.CheckID"}
h = handler({"p": client_conf(o)}, services=srv)
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
h.refresh_access_token(b["state"])
c = h.issuer2rp[o.issuer]
req = c.client_get("service", "check_id").construct({}, state=b["state"])
assert len(lg.id_tokens) == 2
assert req["id_token"] == lg.id_tokens[-1][0], "an old ID Token"
'''),
 dict(id="C26-users-latest-login", property="C26",
      needs="two logins of the same user at the same provider",
      breaks="a session check made for one login carries the ID Token of the user's other login",
      edits=[("oidc/check_session.py", """        request_args = self.client_get("service_context").state.multiple_extend_request_args(
            request_args, kwargs['state'], ['id_token'],
""", """        _si = self.client_get("service_context").state
        _key = kwargs['state']
        # The session at the provider is the user's
        _idt = _si.multiple_extend_request_args({}, _key, ['id_token'], ['auth_response', 'token_response'])
        if 'sub' in _idt.get('id_token', {}):
            try:
                _key = _si.get_state_by_sub(_idt['id_token']['sub'])
            except KeyError:
                pass
        request_args = _si.multiple_extend_request_args(
            request_args, _key, ['id_token'],
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
srv = services()
srv["check_session"] = {"class": "oidcrp.oidc.check_session.CheckSession"}
h = handler({"p": client_conf(o)}, services=srv)
lgs = []
for i in range(2):
    b = h.begin("p")
    lg, r = o.authorize(b["url"])
    h.finalize(o.issuer, r)
    lgs.append((b["state"], lg))
c = h.issuer2rp[o.issuer]
for state, lg in lgs:
    req = c.client_get("service", "check_session").construct({}, state=state)
    assert req["id_token"] == lg.id_tokens[-1][0], "the other login's ID Token"
'''),
 dict(id="C27-provider-list-first", property="C27",
      needs="a provider that announces more encryption algorithms than the client registered, and a response encrypted with one of the others",
      breaks="a response encrypted with an algorithm that the client did not register is accepted",
      edits=[("service_context.py", """                _alg = self.behaviour[CLI_REG_MAP[typ][attr]]
            except KeyError:
                try:
                    _alg = self.provider_info[PROVIDER_INFO_MAP[typ][attr]]
                except KeyError:
                    _alg = None

            res[attr] = _alg
""", """                _alg = self.provider_info[PROVIDER_INFO_MAP[typ][attr]]
            except KeyError:
                try:
                    _alg = self.behaviour[CLI_REG_MAP[typ][attr]]
                except KeyError:
                    _alg = None

            res[attr] = _alg
""")],
      demo=ENC + '''
use[0] = "RSA1_5"
got = login()
assert got != "x@example.org", "accepted although encrypted with another algorithm"
'''),
 dict(id="C27-content-encryption-ignored", property="C27",
      needs="a response encrypted with another content encryption than the registered one",
      breaks="the registered content encryption algorithm isn't enforced",
      edits=[("service.py", """        args['allowed_enc_encs'] = enc_algs['enc']
""", """        if not enc_algs['alg']:
            args['allowed_enc_encs'] = enc_algs['enc']
""")],
      demo=ENC + '''
use[1] = "A128CBC-HS256"
got = login()
assert got != "x@example.org", "accepted although encrypted with another content encryption"
'''),
 dict(id="C28-userinfo-session-kept", property="C28",
      needs="user info requests of two logins (two users) that overlap",
      breaks="the answer to one login's user info request is compared with another login's subject",
      edits=[("oidc/userinfo.py", """        if "access_token" in request_args:
            pass
        else:
""", """        # The response has to be about the same session
        self._session = kwargs.get('state')

        if "access_token" in request_args:
            pass
        else:
"""), ("oidc/userinfo.py", """        _args = _state_interface.multiple_extend_request_args(
            {}, kwargs['state'], ['id_token'],
""", """        _args = _state_interface.multiple_extend_request_args(
            {}, getattr(self, '_session', None) or kwargs['state'], ['id_token'],
""")],
      demo=TWO + '''
h = handler({"p": client_conf(o)})
pending = []
done = []

def info(req):
    res = o.userinfo(req)
    if pending:
        done.append(h.finalize(o.issuer, pending.pop())["userinfo"]["sub"])
    return res

o.userinfo_hook = info
rs = []
for u in ("u1", "u2"):
    b = h.begin("p")
    rs.append(o.authorize(b["url"], sub=u)[1])
pending.append(rs[1])
try:
    done.append(h.finalize(o.issuer, rs[0])["userinfo"]["sub"])
except Exception as err:
    done.append(repr(err))
assert done == ["u2", "u1"], done
'''),
 dict(id="C28-parsed-state-cached", property="C28",
      needs="two threads reading the session information of different logins, one interrupted between the two assignments",
      breaks="the session information of another login is returned",
      edits=[("state_interface.py", """        _data = self._db.get(key)
        if not _data:
            raise KeyError(key)

        return State().from_json(_data)
""", """        _data = self._db.get(key)
        if not _data:
            raise KeyError(key)

        # Often asked for several times in a row
        if _data != self._seen:
            self._seen = _data
            self._parsed = State().from_json(_data)
        return self._parsed
"""), ("state_interface.py", """        ImpExp.__init__(self)
        self._db = {}
""", """        ImpExp.__init__(self)
        self._seen = self._parsed = None
        self._db = {}
""")],
      demo=TWO + '''
from oidcrp.state_interface import State
h = handler({"p": client_conf(o)})
a, b = h.begin("p")["state"], h.begin("p")["state"]
h.get_session_information(a)
orig = State.from_json
todo = [a]

def from_json(self, txt, **kw):
    if todo:
        # another thread gets its turn
        h.get_session_information(todo.pop())
    return orig(self, txt, **kw)

si = ctx(h.issuer2rp[o.issuer]).state
State.from_json = from_json
si.get_state(b)
State.from_json = orig
for s in (a, b, a):
    got = h.get_session_information(s)["auth_request"]["state"]
    assert got == s, "another login's information"
'''),
 dict(id="C28-http-arguments-shared", property="C28",
      needs="two requests made at the same time, one interrupted while its arguments are put together",
      breaks="a request is sent with another request's header and body",
      edits=[("http.py", """        _kwargs = copy.copy(self.request_args)
        if kwargs:
""", """        _kwargs = self.request_args
        if kwargs:
""")],
      demo=TWO + '''
from oidcrp.http import HTTPLib
todo = []


class Lib(HTTPLib):
    def add_cookies(self, kwargs):
        if todo:
            # another thread gets its turn
            h.get_user_info(todo.pop())
        return HTTPLib.add_cookies(self, kwargs)


h = handler({"p": client_conf(o)}, http_lib=Lib({"verify": False}))
states = []
for u in ("u1", "u2"):
    b = h.begin("p")
    h.finalize(o.issuer, o.authorize(b["url"], sub=u)[1])
    states.append(b["state"])
todo.append(states[1])
try:
    got = h.get_user_info(states[0])["sub"]
except Exception as err:
    got = repr(err)
assert got == "u1", got
'''),
 dict(id="C29-failed-login-removed", property="C29",
      needs="a token request that fails (for example no answer) and is repeated",
      breaks="a failed token request removes the login, so it can't be repeated",
      edits=[("rp_handler.py", """        try:
            tokenresp = client.do_request(
                'accesstoken', request_args=req_args,
                authn_method=self.get_client_authn_method(client, "token_endpoint"),
                state=state
            )
        except Exception as err:
            message = traceback.format_exception(*sys.exc_info())
            logger.error(message)
            raise
""", """        try:
            tokenresp = client.do_request(
                'accesstoken', request_args=req_args,
                authn_method=self.get_client_authn_method(client, "token_endpoint"),
                state=state
            )
        except Exception as err:
            logger.error(traceback.format_exception(*sys.exc_info()))
            # There will be no session
            _context.state.remove_state(state)
            raise
""")],
      demo=TWO + '''
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])

def down(req):
    raise requests.exceptions.ConnectionError("down")

o.token_hook = down
try:
    h.finalize(o.issuer, r)
except requests.exceptions.ConnectionError:
    pass
o.token_hook = None
try:
    got = h.get_tokens(b["state"])["access_token"]
except Exception as err:
    got = repr(err)
assert got in o.at, got
'''),
 dict(id="C29-failed-refresh-forgets", property="C29",
      needs="a second refresh that fails",
      breaks="a failed refresh makes an older refresh token (and access token) current again",
      edits=[("rp_handler.py", """                'refresh_token',
                authn_method=self.get_client_authn_method(client, "token_endpoint"),
                state=state, request_args=req_args
            )
        except Exception as err:
            message = traceback.format_exception(*sys.exc_info())
            logger.error(message)
            raise
""", """                'refresh_token',
                authn_method=self.get_client_authn_method(client, "token_endpoint"),
                state=state, request_args=req_args
            )
        except Exception as err:
            logger.error(traceback.format_exception(*sys.exc_info()))
            # Don't leave anything half done
            client.client_get("service_context").state.store_item(
                AccessTokenResponse(), 'refresh_token_response', state)
            raise
""")],
      demo=TWO + '''
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
h.refresh_access_token(b["state"])
before = h.get_valid_access_token(b["state"])

def down(req):
    raise requests.exceptions.ReadTimeout("no answer")

o.token_hook = down
try:
    h.refresh_access_token(b["state"])
except requests.exceptions.ReadTimeout:
    pass
assert h.get_valid_access_token(b["state"]) == before, "an older token"
'''),
 dict(id="C29-client-recorded-early", property="C29",
      needs="a dynamic registration that fails and a second attempt to log in at that provider",
      breaks="a client that isn't registered is kept and used",
      edits=[("rp_handler.py", """        logger.debug("Do client registration")
        self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
""", """        # Ready for requests from the provider
        self.issuer2rp.setdefault(client.client_get("service_context").get('issuer'), client)
        self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
""")],
      demo=TWO + '''
conf = client_conf(o, dynamic=True)
h = handler({"": {k: v for k, v in conf.items() if k != "issuer"}})
o.reg_hook = lambda req: response(503, "", "text/html")
try:
    h.begin(o.issuer)
except Exception:
    pass
o.reg_hook = None
try:
    q = single(query_of(h.begin(o.issuer)["url"]))
except Exception as err:
    q = repr(err)
assert isinstance(q, dict) and "client_id" in q, q
'''),
 dict(id="C29-push-failure-ignored", property="C29",
      needs="no connection to the endpoint for pushed authorization requests",
      breaks="a pushed authorization request that failed isn't reported",
      edits=[("oauth2/add_on/pushed_authorization.py", """    resp = method_args["http_client"].get(
        _context.provider_info["pushed_authorization_request_endpoint"], data=_body
    )
""", """    try:
        resp = method_args["http_client"].get(
            _context.provider_info["pushed_authorization_request_endpoint"], data=_body
        )
    except requests.exceptions.RequestException as err:
        logger.error("Pushed authorization request: %s", err)
        return request_args
""")],
      demo=TWO + '''
o.meta["pushed_authorization_request_endpoint"] = o.base + "/par"
conf = client_conf(o)
conf["provider_info"] = o.metadata()
conf["add_ons"] = {"par": {"function": "oidcrp.oauth2.add_on.pushed_authorization.add_support", "kwargs": {"body_format": "urlencoded", "merge_rule": "lax"}}}
h = handler({"p": conf})

def down(req):
    raise requests.exceptions.ConnectionError("down")

o.par_hook = down
try:
    h.begin("p")
    failed = False
except requests.exceptions.ConnectionError:
    failed = True
assert failed, "the failure isn't reported"
'''),
]
