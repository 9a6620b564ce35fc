"""The last rounds"""
ONE = '''
from op import *
from clock import Clock
w = World().__enter__()
'''
R, S, CA = "rp_handler.py", "service.py", "client_auth.py"
SEEDS = [
 dict(id="C07-collected-token", property="C07",
      needs="a hybrid flow whose redirect brings an access token and an application that asks for tokens to be collected from the token endpoint too",
      breaks="user info is requested with, and the caller gets, the older access token",
      edits=[(R, """                    # Now which access_token should I use
                    access_token = token_resp["access_token"]
""", """                    # Now which access_token should I use
                    access_token = access_token or token_resp["access_token"]
""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, "code token")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
out = h.finalize(o.issuer, r, behaviour_args={"collect_tokens": True})
assert out["token"] == lg.ats[-1], (out["token"], lg.ats)
'''),
 dict(id="C01-collected-idt", property="C01",
      needs="a hybrid flow with an ID Token in the redirect, tokens also collected from the token endpoint, and an ID Token there with other claims",
      breaks="the claims reported are not those of the ID Token received last",
      edits=[(R, """                    # May or may not get an ID Token
                    id_token = token_resp.get('__verified_id_token')

        elif""", """                    # May or may not get an ID Token
                    id_token = id_token or token_resp.get('__verified_id_token')

        elif""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, "code id_token token")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
orig = o.id_claims
o.id_claims = lambda *a, **k: dict(orig(*a, **k), acr="urn:level:2")
out = h.finalize(o.issuer, r, behaviour_args={"collect_tokens": True})
assert out["id_token"].get("acr") == "urn:level:2", out["id_token"]
'''),
 dict(id="C05-error-beside-subject", property="C05",
      needs="a user info answer that is an error and nevertheless has a subject in it",
      breaks="what stands in an error about some other subject is handed out as user info",
      edits=[(R, """            if isinstance(inforesp, ResponseMessage) and 'error' in inforesp:""",
              """            if isinstance(inforesp, ResponseMessage) and 'error' in inforesp and 'sub' not in inforesp:"""),
             (R, """        if is_error_message(resp):
            raise OidcServiceError(resp['error'])

        return resp

    @staticmethod
    def userinfo""", """        if is_error_message(resp) and 'sub' not in resp:
            raise OidcServiceError(resp['error'])

        return resp

    @staticmethod
    def userinfo""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"], sub="alice")
o.userinfo_hook = lambda req: response(200, {"error": "temporarily_unavailable", "sub": "mallory"})
try:
    out = h.finalize(o.issuer, r)
except Exception:
    out = {"error": "x"}
assert "error" in out, out
'''),
 dict(id="C01-userinfo-strings-only", property="C01",
      needs="an implicit flow without access token and an ID Token with structured claims about the user that no standard defines",
      breaks="structured claims about the user are left out",
      edits=[(R, """        res.update(id_token.extra())
""", """        res.update({k: v for k, v in id_token.extra().items() if isinstance(v, (str, int, list))})
""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, "id_token")})
b = h.begin("p")
orig = o.id_claims
o.id_claims = lambda *a, **k: dict(orig(*a, **k), org={"unit": "x"})
lg, r = o.authorize(b["url"])
out = h.finalize(o.issuer, r)
assert out["userinfo"].get("org") == {"unit": "x"}, out["userinfo"]
'''),
 dict(id="C13-all-slashes", property="C13",
      needs="an issuer that ends in more than one slash",
      breaks="provider information is asked for at another location than the issuer's",
      edits=[("oauth2/provider_info_discovery.py", "            return OIDCONF_PATTERN.format(_iss[:-1])",
              "            return OIDCONF_PATTERN.format(_iss.rstrip('/'))")],
      demo=ONE + '''
o = OP(w, 0, issuer="https://op0.example.org/t//")
h = handler({"p": client_conf(o)})
try:
    h.begin("p")
except Exception:
    pass
assert w.log[0].url == "https://op0.example.org/t//.well-known/openid-configuration", w.log[0].url
'''),

 dict(id="C32-user-info-in-flight", property="C32",
      needs="tokens refreshed, or a logout begun, by another thread while a user info request is on its way",
      breaks="what was recorded for the login in the meantime is lost when the user info arrives",
      edits=[(R, """        request_args = {'access_token': access_token}

        resp = client.do_request('userinfo', state=state,
                                 request_args=request_args, **kwargs)
        if is_error_message(resp):
            raise OidcServiceError(resp['error'])
""", """        request_args = {'access_token': access_token}

        _session = client.client_get("service_context").state
        _record = _session.get_state(state)
        resp = client.do_request('userinfo', state=state,
                                 request_args=request_args, **kwargs)
        if is_error_message(resp):
            raise OidcServiceError(resp['error'])

        # nothing but the user info has changed
        _record['user_info'] = resp.to_json()
        _session._db[state] = _record.to_json()
""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, "code")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
plain, new = o.userinfo, []
def meanwhile(req):
    if not new:
        new.append(h.refresh_access_token(b["state"])["access_token"])
    return plain(req)
o.userinfo = meanwhile
o.userinfo_hook = meanwhile
h.get_user_info(b["state"])
assert new and h.get_valid_access_token(b["state"])[0] == new[0], (new, h.get_valid_access_token(b["state"]))
'''),
 dict(id="C32-user-info-written-back", property="C32",
      needs="a refresh that is recorded by another thread while an extension looks at the user info",
      breaks="the refreshed tokens are lost, the old ones are used on",
      edits=[("oidc/userinfo.py", """        # Extension point
        for meth in self.post_parse_process:
            response = meth(response, _state_interface, kwargs['state'])

        _state_interface.store_item(response, 'user_info', kwargs['state'])
""", """        _record = _state_interface.get_state(kwargs['state'])
        # Extension point
        for meth in self.post_parse_process:
            response = meth(response, _state_interface, kwargs['state'])

        _record['user_info'] = response.to_json()
        _state_interface._db[kwargs['state']] = _record.to_json()
""")],
      demo=ONE + '''
o = OP(w, 0)
h = handler({"p": client_conf(o, "code")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
new = []
def meanwhile(response, state_interface, state):
    new.append(h.refresh_access_token(state)["access_token"])
    return response
h.issuer2rp[o.issuer].client_get("service", "userinfo").post_parse_process.append(meanwhile)
h.get_user_info(b["state"])
assert new and h.get_valid_access_token(b["state"])[0] == new[0], (new, h.get_valid_access_token(b["state"]))
'''),
 dict(id="C32-redirect-written-back", property="C32",
      needs="the same redirect handled by two threads (the user clicked twice), one of which is suspended between reading and writing the login's record",
      breaks="the tokens that the other one received are lost: a login that was completed has no tokens",
      edits=[(R, """        try:
            _iss = _context.state.get_iss(authorization_response['state'])
        except KeyError:
""", """        try:
            _record = _context.state.get_state(authorization_response['state'])
            _iss = _record['iss']
        except KeyError:
"""), (R, """        _context.state.store_item(authorization_response, "auth_response",
                                  authorization_response['state'])
""", """        _record["auth_response"] = authorization_response.to_json()
        _context.state._db[authorization_response['state']] = _record.to_json()
""")],
      demo=ONE + '''
import logging
logging.disable(logging.CRITICAL)
o = OP(w, 0)
h = handler({"p": client_conf(o, "code")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
srv = h.issuer2rp[o.issuer].client_get("service", "authorization")
plain, got = srv.update_service_context, []
def meanwhile(*a, **k):
    if not got:
        got.append(None)
        got[0] = h.finalize(o.issuer, dict(r))
    return plain(*a, **k)
srv.update_service_context = meanwhile
h.finalize_auth(h.issuer2rp[o.issuer], o.issuer, dict(r))
try:
    tok = h.get_valid_access_token(b["state"])[0]
except Exception as err:
    tok = err
assert tok == got[0]["token"], (got, tok)
'''),
 dict(id="C32-logout-state-shared", property="C32",
      needs="two threads that log out at the same time, one suspended between making the state of its request and sending it",
      breaks="one of the logouts has a state that leads to no login when the user comes back, or both have the same",
      edits=[("oidc/end_session.py", """        if 'state' not in request_args:
            request_args['state'] = rndstr(32)
""", """        self.logout_state = request_args.get('state') or rndstr(32)
        request_args['state'] = self.logout_state
"""), ("oidc/end_session.py", """        self.client_get("service_context").state.store_logout_state2state(request_args['state'],
                                                                          kwargs['state'])
""", """        self.client_get("service_context").state.store_logout_state2state(self.logout_state,
                                                                          kwargs['state'])
""")],
      demo=ONE + '''
import sys
from oidcrp.oidc.end_session import EndSession
o = OP(w, 0)
h = handler({"p": client_conf(o, "code")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
state = h.issuer2rp[o.issuer].client_get("service_context").state
for n in range(1, 12):
    left, other = [n], []
    def line(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                other.append(h.logout(b["state"]))
        return line
    sys.settrace(lambda frame, event, arg: line if frame.f_code is EndSession.add_state.__code__ else None)
    try:
        one = h.logout(b["state"])
    finally:
        sys.settrace(None)
    ends = [dict(query_of(x["url"]))["state"] for x in [one] + other]
    assert len(set(ends)) == len(ends), ends
    for x in ends:
        try:
            found = state.get_state_by_logout_state(x)
        except KeyError:
            found = None
        assert found == b["state"], (n, x, found)
'''),
]
