"""C01 - C04"""
TWO = '''
from op import *
w = World()
w.__enter__()
a, b = OP(w, 0), OP(w, 1)
'''
SEEDS = [

 dict(id="C01-nonce-other-login", property="C01",
      needs="hybrid flow, two logins open at the same provider; the ID Token in the redirect carries the nonce of the other login",
      breaks="an ID Token issued for another login of the same client is accepted",
      edits=[("oidc/authorization.py", """                elif _req_nonce != _id_token_nonce:
                    raise ValueError('Invalid nonce')
""", """                elif _req_nonce != _id_token_nonce:
                    # May have been superseded by a later request from the same user agent
                    try:
                        _state = self.client_get("service_context").state.get_state_by_nonce(
                            _id_token_nonce)
                    except KeyError:
                        raise ValueError('Invalid nonce')
                    response['state'] = response.get('state') or _state
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt="id_token")})
one, two = h.begin("p"), h.begin("p")
l1, r1 = o.authorize(one["url"], sub="alice")
l2, r2 = o.authorize(two["url"], sub="mallory")
r2["id_token"] = o.id_token(l2, nonce=l1.nonce)
try:
    res = h.finalize(o.issuer, r2)
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError(res)
'''),
 dict(id="C01-nonce-absent-hybrid", property="C01",
      needs="response type with id_token and token, where the ID Token in the redirect has no nonce",
      breaks="an ID Token without nonce is accepted if an access token comes along with it",
      edits=[("oidc/authorization.py", """                _id_token_nonce = _idt.get('nonce')
                if not _id_token_nonce:
""", """                _id_token_nonce = _idt.get('nonce')
                if 'at_hash' in _idt and not _id_token_nonce:
                    pass  # bound to this response by the access token
                elif not _id_token_nonce:
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt="id_token token")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
r["id_token"] = o.id_token(lg, at=r["access_token"], nonce=None)
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError(res)
'''),
 dict(id="C01-skew-minutes", property="C01",
      needs="an ID Token from the token endpoint that expired longer ago than the clock skew but less than sixty times it",
      breaks="an ID Token is accepted long after it expired",
      edits=[("oidc/access_token.py", """            'skew': _context.clock_skew,
""", """            'skew': _context.clock_skew * 60,
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
lg.claims = {"iat": int(time.time()) - 1000, "exp": int(time.time()) - 300}
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError(res)
'''),
 dict(id="C01-registered-alg-hybrid", property="C01",
      needs="a client registered for one signature algorithm; an ID Token in the redirect signed with another one of the provider's keys",
      breaks="the registered ID Token algorithm is only enforced for the token endpoint",
      edits=[("oidc/authorization.py", """                try:
                    kwargs[attr] = _reg_res[param]
                except KeyError:
                    pass
""", """                if attr in kwargs:
                    continue
                _val = _context.behaviour.get(param)
                if _val and _val == _reg_res.get(param):
                    kwargs[attr] = _val
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, alg="ES256")
def reg(req):
    r = o.register(req)
    body = json.loads(r.text)
    body["id_token_signed_response_alg"] = "RS256"
    return response(201, body)
o.reg_hook = reg
h = handler({"p": client_conf(o, rt="id_token", dynamic=True)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
try:
    res = h.finalize(o.issuer, r)
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError(res)
'''),
 dict(id="C02-error-recorded", property="C02",
      needs="an error response for a login that was already completed",
      breaks="the error response replaces the stored authorization response of the login, whose code and tokens are lost",
      edits=[("rp_handler.py", """        if is_error_message(authorization_response):
            return authorization_response

        _context = client.client_get("service_context")
        try:
            _iss = _context.state.get_iss(authorization_response['state'])
        except KeyError:
            raise KeyError('Unknown state value')
""", """        _context = client.client_get("service_context")
        try:
            _iss = _context.state.get_iss(authorization_response['state'])
        except KeyError:
            raise KeyError('Unknown state value')

        if is_error_message(authorization_response):
            _context.state.store_item(authorization_response, "auth_response",
                                      authorization_response['state'])
            return authorization_response
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt="id_token token")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
before = store_dump(h.issuer2rp[o.issuer]).copy()
h.finalize(o.issuer, {"error": "access_denied", "state": b["state"]})
assert store_dump(h.issuer2rp[o.issuer]) == before
'''),
 dict(id="C02-verify-after-store", property="C02",
      needs="an authorization response with a forged ID Token for an already completed login",
      breaks="a response that is refused (wrong nonce) leaves its content in the session because it is stored before it is completely verified",
      edits=[("oidc/authorization.py", """        _idt = response.get(verified_claim_name('id_token'))
        if _idt:
            # If there is a verified ID Token then we have to do nonce
            # verification.
            _request = self.get_request_from_response(response)
""", """        _idt = response.get(verified_claim_name('id_token'))
        if 'state' in response and _idt is not None:
            self.update_service_context(response, key=response['state'])
        if _idt is not None:
            # If there is a verified ID Token then we have to do nonce
            # verification.
            _request = self.get_request_from_response(response)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o, rt="id_token token")})
b = h.begin("p")
lg, r = o.authorize(b["url"])
h.finalize(o.issuer, r)
before = store_dump(h.issuer2rp[o.issuer]).copy()
at = "stolen"
r2 = dict(r, access_token=at, id_token=o.id_token(lg, at=at, nonce="y" * 24))
try:
    h.finalize(o.issuer, r2)
except Exception as e:
    pass
else:
    raise AssertionError("accepted")
assert store_dump(h.issuer2rp[o.issuer]) == before
'''),
 dict(id="C02-issuer-slash", property="C02",
      needs="two providers whose issuers differ only by a trailing slash-separated tail",
      breaks="a response belonging to a login at one provider is accepted when presented for another provider served by the same client key prefix",
      edits=[("rp_handler.py", """        if _iss != issuer:
            logger.error('Issuer problem: {} != {}'.format(_iss, issuer))
""", """        if not issuer.startswith(_iss):
            logger.error('Issuer problem: {} != {}'.format(_iss, issuer))
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0, issuer="https://op.example.org")
h = handler({"p": client_conf(o)})
b = h.begin("p")
lg, r = o.authorize(b["url"])
client = h.issuer2rp[o.issuer]
try:
    h.finalize_auth(client, "https://op.example.org.evil.example", r)
except Exception as e:
    print("refused", repr(e))
else:
    raise AssertionError("accepted")
'''),
 dict(id="C03-first-sub-wins", property="C03",
      needs="the same user logs in twice at one provider",
      breaks="looking a login up by subject gives the first login instead of the most recent one",
      edits=[("rp_handler.py", """        if _id_token:
            _context.state.store_sub2state(_id_token['sub'], _state)
""", """        if _id_token:
            try:
                _context.state.get_iss(_context.state.get_state_by_sub(_id_token['sub']))
            except KeyError:
                _context.state.store_sub2state(_id_token['sub'], _state)
"""), ("oidc/access_token.py", """            _state_interface.store_sub2state(_idt['sub'], key)
""", """            if 'sub' in resp:
                _state_interface.store_sub2state(resp['sub'], key)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
for i in range(2):
    b = h.begin("p")
    lg, r = o.authorize(b["url"], sub="alice")
    h.finalize(o.issuer, r)
st = ctx(h.issuer2rp[o.issuer]).state
assert st.get_state_by_sub("alice") == b["state"]
'''),
 dict(id="C03-userinfo-by-sub", property="C03",
      needs="one user with two sessions at the same provider, userinfo fetched for the older one",
      breaks="user info is stored with the user's most recent session instead of the session it was fetched for",
      edits=[("oidc/userinfo.py", """        _state_interface.store_item(response, 'user_info', kwargs['state'])
""", """        try:
            _key = _state_interface.get_state_by_sub(response['sub'])
        except KeyError:
            _key = kwargs['state']
        _state_interface.store_item(response, 'user_info', _key)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
states = []
for i in range(2):
    b = h.begin("p")
    lg, r = o.authorize(b["url"], sub="alice")
    h.finalize(o.issuer, r)
    states.append(b["state"])
st = ctx(h.issuer2rp[o.issuer]).state
snap = st._db[states[1]]
h.get_user_info(states[0])
assert st._db[states[1]] == snap
'''),
 dict(id="C03-clear-by-sub", property="C03",
      needs="a user with two sessions; one of them is cleared",
      breaks="clearing one session clears all sessions of the user",
      edits=[("rp_handler.py", """        client = self.get_client_from_session_key(state)
        client.client_get("service_context").state.remove_state(state)
""", """        client = self.get_client_from_session_key(state)
        _state = client.client_get("service_context").state
        _sub = _state.multiple_extend_request_args({}, state, ['sub'], ['user_info']).get('sub')
        if _sub:
            try:
                _latest = _state.get_state_by_sub(_sub)
            except KeyError:
                pass
            else:
                if _latest != state:
                    _state.remove_state(_latest)
        _state.remove_state(state)
""")],
      demo='''
from op import *
w = World().__enter__()
o = OP(w, 0)
h = handler({"p": client_conf(o)})
states = []
for i in range(2):
    b = h.begin("p")
    lg, r = o.authorize(b["url"], sub="alice")
    h.finalize(o.issuer, r)
    states.append(b["state"])
h.clear_session(states[0])
assert h.state2issuer(states[1]) == o.issuer
'''),
 dict(id="C04-create-keeps-old", property="C04",
      needs="a session key that is created a second time",
      breaks="creating a session under an existing key keeps the old record",
      edits=[("state_interface.py", """        _state = State(iss=iss)
        self._db[key] = _state.to_json()
        return key
""", """        _state = State(iss=iss)
        self._db.setdefault(key, _state.to_json())
        return key
""")],
      demo='''
from oidcrp.state_interface import StateInterface
s = StateInterface()
s.create_state("https://a.example", "k")
s.store_item({"access_token": "x"}, "token_response", "k")
s.create_state("https://b.example", "k")
assert s.get_iss("k") == "https://b.example"
assert "token_response" not in s.get_state("k")
'''),
 dict(id="C04-refs-by-type", property="C04",
      needs="a session with references of more than one kind that is removed",
      breaks="removing a session leaves references of it behind",
      edits=[("state_interface.py", """            refs = json.loads(_val)
""", """            refs = {k: v for k, v in json.loads(_val).items() if k == xtyp}
""")],
      demo='''
from oidcrp.state_interface import StateInterface
s = StateInterface()
s.create_state("https://a.example", "k")
s.store_nonce2state("n", "k")
s.store_sub2state("u", "k")
s.remove_state("k")
for f, v in [(s.get_state_by_nonce, "n"), (s.get_state_by_sub, "u")]:
    try:
        f(v)
    except KeyError:
        pass
    else:
        raise AssertionError(v)
'''),
 dict(id="C04-later-loses-verified", property="C04",
      needs="a parameter that is verified in an earlier record and unverified in a later one, or the other way around",
      breaks="collecting parameters over several records lets the earlier record win",
      edits=[("state_interface.py", """                    try:
                        args[parameter] = _item[verified_claim_name(parameter)]
                    except KeyError:
                        try:
                            args[parameter] = _item[parameter]
                        except KeyError:
                            pass

        return args

    def store_x2state""", """                    try:
                        args[parameter] = _item[verified_claim_name(parameter)]
                    except KeyError:
                        try:
                            # keep what's verified
                            if not isinstance(args.get(parameter), (dict, Message)):
                                args[parameter] = _item[parameter]
                        except KeyError:
                            pass

        return args

    def store_x2state""")],
      demo='''
from oidcrp.state_interface import StateInterface
s = StateInterface()
s.create_state("https://a.example", "k")
s.store_item({"id_token": "raw", "__verified_id_token": {"sub": "a"}}, "auth_response", "k")
s.store_item({"id_token": {"sub": "b"}}, "token_response", "k")
r = s.multiple_extend_request_args({}, "k", ["id_token"], ["auth_response", "token_response"])
assert r["id_token"]["sub"] == "b", r
'''),
]
