"""Later rounds"""
ONE = '''
from op import *
from clock import Clock
w = World().__enter__()
'''
SEEDS = [
 dict(id="C31-activity-of-first", property="C31",
      needs="a refresh that brings a newer ID Token, and a question about the login's activity after the first one's end",
      breaks="whether a login is active is decided by the ID Token it began with, not by the newest one",
      edits=[("rp_handler.py", """            {}, state, ['__verified_id_token'],
            ['auth_response', 'token_response', 'refresh_token_response'])
""", """            {}, state, ['__verified_id_token'],
            ['auth_response', 'token_response'])
""")],
      demo=ONE + '''
with Clock() as clock:
    o = OP(w, 0)
    h = handler({"p": client_conf(o)})
    b = h.begin("p")
    lg, r = o.authorize(b["url"])
    o.give_refresh = o.refresh_idt = True
    h.finalize(o.issuer, r)
    assert h.has_active_authentication(b["state"])
    clock.advance(3000)
    h.refresh_access_token(b["state"])
    clock.advance(3000)
    assert h.has_active_authentication(b["state"])
'''),
 dict(id="C31-registered-alg-first-only", property="C31",
      needs="a dynamically registered client with a registered ID Token algorithm, and a refresh that brings an ID Token signed with another one",
      breaks="the registered algorithm isn't demanded of ID Tokens that come with a refresh",
      edits=[("oidc/access_token.py", """        if _reg_resp:
""", """        if _reg_resp and self.service_name == 'accesstoken':
""")],
      demo=ONE + '''
o = OP(w, 0, alg="RS256")
conf = client_conf(o, dynamic=True)
conf["client_preferences"]["id_token_signed_response_alg"] = "RS256"
h = handler({"p": conf})
b = h.begin("p")
lg, r = o.authorize(b["url"])
o.give_refresh = o.refresh_idt = True
h.finalize(o.issuer, r)
h.refresh_access_token(b["state"])
o.alg = "ES256"
try:
    h.refresh_access_token(b["state"])
except Exception:
    pass
else:
    assert False, "accepted"
'''),
 dict(id="C31-unknown-nonce", property="C31",
      needs="a refresh that brings an ID Token with a nonce that is of no login at all",
      breaks="an ID Token with a nonce nobody knows is accepted at a refresh",
      edits=[("service.py", """            resp = self.post_parse_response(resp, state=state)

        if not resp:""", """            try:
                resp = self.post_parse_response(resp, state=state)
            except KeyError as err:
                LOGGER.debug('Nothing to compare with: %s', err)

        if not resp:""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
o.give_refresh = o.refresh_idt = True
h.finalize(o.issuer, r)
lg.nonce = "a-nonce-of-nobody"
try:
    h.refresh_access_token(b["state"])
except Exception:
    pass
else:
    assert False, "accepted"
'''),
 dict(id="C16-configured-first", property="C16",
      needs="a client with a configured resource that is asked to look up another identifier",
      breaks="the identifier that is configured is looked up instead of the one that was asked for",
      edits=[("oidc/webfinger.py", """            try:
                _resource = kwargs['resource']
            except KeyError:
                try:
                    _resource = self.client_get("service_context").config['resource']
                except KeyError:
""", """            try:
                _resource = self.client_get("service_context").config['resource']
            except KeyError:
                try:
                    _resource = kwargs['resource']
                except KeyError:
""")],
      demo=ONE + '''
o = OP(w, 0)
conf = client_conf(o, dynamic=True)
conf["resource"] = "acct:default@one.example.org"
h = handler({"": conf})
client = h.init_client("")
info = client.client_get("service", "webfinger").get_request_parameters(resource="acct:joe@two.example.org")
assert info["url"].startswith("https://two.example.org/"), info["url"]
'''),
 dict(id="C19-long-logout-state", property="C19",
      needs="a caller that gives a logout state of more than 32 characters",
      breaks="the logout state that comes back isn't found",
      edits=[("oidc/end_session.py", """        self.client_get("service_context").state.store_logout_state2state(request_args['state'],
                                                                          kwargs['state'])
""", """        self.client_get("service_context").state.store_logout_state2state(
            request_args['state'][:32], kwargs['state'])
""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
c = h.issuer2rp[o.issuer]
mine = "logout-" * 8
c.client_get("service", "end_session").get_request_parameters(state=b["state"], request_args={"state": mine})
try:
    got = ctx(c).state.get_state_by_logout_state(mine)
except KeyError:
    got = None
assert got == b["state"], got
'''),
 dict(id="C26-own-client-id-dropped", property="C26",
      needs="a session check where the caller gives a client_id itself",
      breaks="what the caller gave is missing in the request",
      edits=[("oidc/check_session.py", """        request_args = self.client_get("service_context").state.multiple_extend_request_args(
            request_args, kwargs['state'], ['id_token'],
            ['auth_response', 'token_response', 'refresh_token_response'],
            orig=True)
        return request_args, {}""", """        _args = self.client_get("service_context").state.multiple_extend_request_args(
            {}, kwargs['state'], ['id_token'],
            ['auth_response', 'token_response', 'refresh_token_response'],
            orig=True)
        _args.update({k: v for k, v in (request_args or {}).items() if k != 'client_id'})
        return _args, {}""")],
      demo=ONE + '''
o = OP(w, 0)
sv = services()
sv["check_session"] = {"class": "oidcrp.oidc.check_session.CheckSession"}
h = handler({"p": client_conf(o)}, services=sv)
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
m = h.issuer2rp[o.issuer].client_get("service", "check_session").construct(request_args={"client_id": "mine"}, state=b["state"])
assert m.get("client_id") == "mine", m
'''),
 dict(id="C20-preferences-not-dumped", property="C20",
      needs="a client that is restored without its configuration and registers again",
      breaks="the preferences of the client are lost by a dump",
      edits=[("service_context.py", """        "client_preferences": None,
""", "")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, dynamic=True)})
h.begin("p")
c = h.issuer2rp[o.issuer]
d = ctx(c).dump()
assert d.get("client_preferences") == ctx(c).client_preferences != {}, d.get("client_preferences")
'''),
 dict(id="C11-unencrypted-request", property="C11",
      needs="request object encryption where the content encryption algorithm is left empty",
      breaks="a request object that was to be encrypted is sent in the clear",
      edits=[("oidc/utils.py", """    if not encenc:
        raise MissingRequiredAttribute(
            "No request_object_encryption_enc specified")
""", """    if not encenc:
        return msg
""")],
      demo=ONE + '''
from oidcrp.oidc.utils import request_object_encryption
o = OP(w, 0)
h = handler({"p": client_conf(o)})
h.begin("p")
c = ctx(h.issuer2rp[o.issuer])
c.behaviour.update(request_object_encryption_alg="RSA-OAEP", request_object_encryption_enc="")
try:
    out = request_object_encryption("the request", c, target=o.issuer)
except Exception:
    out = None
assert out != "the request", out
'''),
 dict(id="C05-only-refreshed-idt", property="C05",
      needs="a login whose only ID Token came with a refresh, and user info about another user after that",
      breaks="user info about somebody else is accepted",
      edits=[("oidc/userinfo.py", """            {}, kwargs['state'], ['id_token'],
            ['auth_response', 'token_response', 'refresh_token_response']
        )""", """            {}, kwargs['state'], ['id_token'],
            ['auth_response', 'token_response']
        )""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"], sub="alice")
import json
o.token_hook = lambda req: response(200, {k: v for k, v in json.loads(o.token(req).text).items() if k != "id_token"})
h.finalize(o.issuer, r)
o.token_hook = None
o.refresh_idt = True
h.refresh_access_token(b["state"])
o.userinfo_hook = lambda req: response(200, {"sub": "mallory"})
try:
    h.get_user_info(b["state"])
except Exception:
    pass
else:
    assert False, "accepted"
'''),
 dict(id="C01-skew-none-becomes-default", property="C01",
      needs="a client configured to allow for no clock skew, and an ID Token that expired a few seconds ago",
      breaks="an expired ID Token is accepted although no skew is allowed for",
      edits=[("oidc/authorization.py", """            'skew': _context.clock_skew
        }

        _client_id""", """            'skew': _context.clock_skew or 15
        }

        _client_id""")],
      demo=ONE + '''
import time
o = OP(w, 0)
h = handler({"p": client_conf(o, "id_token", clock_skew=0)})
b = h.begin("p")
orig = o.id_claims

def claims(*a, **k):
    return dict(orig(*a, **k), exp=int(time.time()) - 5, iat=int(time.time()) - 300)

o.id_claims = claims
lg, r = o.authorize(b["url"])
try:
    out = h.finalize(o.issuer, r)
except Exception:
    out = {"error": "x"}
assert "error" in out, out
'''),
]
