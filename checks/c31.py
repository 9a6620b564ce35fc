"""C31: What a refresh brings keeps the login with its user."""
import copy
import time

import world as W
from clock import Clock
from hypothesis import strategies as st
from oidcmsg.oidc import AccessTokenResponse

import idt
from op import OP, TENANTS, World, client_conf, ctx, handler, services, single, query_of
from vt import attempt, check, eq, fail, test

RULE = ("Case = two providers, several users and logins (response types with a refresh token), then a history of refreshes that bring no, a good or a bad ID Token "
        "(other user, nonce of another login, audience, issuer, expiry, signature, algorithm, bytes) and hybrid logins whose two ID Tokens are about different users; after every step the records "
        "of all logins, look-ups, activity, logout hint and the following refresh request are compared with a model. Non-trivial: an ID Token was refused, or one came by a refresh with a claim that differs from the first.")
ASSUMPTIONS = ["the clock (time.time, datetime) is replaced by one that stands still during a history", "cryptojwt/oidcmsg produce and verify signatures correctly"]

USERS = ["u1", "u2", "U1", "ü \"x\""]
GOOD = st.tuples(st.sampled_from(["exp", "nonce", "extra", "azp", "aud", "iat"]), st.just("")).map(
    lambda m: [m[0], {"exp": "future", "nonce": "missing", "extra": "custom", "azp": "ok", "aud": "multi_azp_ok", "iat": "old_ok"}[m[0]]])
BAD = st.one_of(
    st.fixed_dictionaries({"muts": st.lists(idt.MUT.map(list), min_size=1, max_size=2, unique_by=lambda m: m[0])}),
    st.fixed_dictionaries({"muts": st.sampled_from([[["sub", "unicode"]], [["sub", "case"]], [["sub", "space"]], [["nonce", "other_session"]], [["nonce", "other"]], [["aud", "other"]], [["exp", "past"]]])}),
    st.fixed_dictionaries({"signer": st.sampled_from([s for s in idt.SIGNERS if s not in ("good", "pub_as_hmac", "wrong_secret")])}),
    st.fixed_dictionaries({"alg": st.sampled_from(idt.ALGS), "muts": st.just([])}),
    st.fixed_dictionaries({"tamper": st.sampled_from([s for s in idt.TAMPER if s != "none"])}))
TOKEN = st.one_of(st.none(), st.just({}), st.fixed_dictionaries({"muts": st.lists(GOOD, max_size=3, unique_by=lambda m: m[0])}), BAD, BAD)

@st.composite
def cases(draw):
    step = st.one_of(st.tuples(st.just("refresh"), st.integers(0, 5), TOKEN), st.tuples(st.just("refresh"), st.integers(0, 5), TOKEN), st.tuples(st.just("refresh"), st.integers(0, 5), TOKEN),
                     st.tuples(st.just("login"), st.integers(0, 1), st.sampled_from(USERS), st.booleans()),
                     st.tuples(st.just("clear"), st.integers(0, 5)), st.tuples(st.just("logout"), st.integers(0, 5)))
    return {"tenants": draw(st.sampled_from(TENANTS)), "rt": [draw(st.sampled_from(["code", "code id_token", "code id_token"])) for _ in range(2)],
            "alg": draw(st.sampled_from(["RS256", "ES256", "HS256"])), "dyn": draw(st.booleans()), "reg": draw(st.booleans()), "rotate": draw(st.booleans()),
            "allow": draw(st.sampled_from([None, {"missing_kid": True}])),
            "skew": draw(st.sampled_from([None, 0, 1, 120])), "expires": draw(st.sampled_from([None, 3600])),
            "ops": [["login", 0, draw(st.sampled_from(USERS)), False], ["login", draw(st.integers(0, 1)), draw(st.sampled_from(USERS)), False]] + [list(x) for x in draw(st.lists(step, min_size=1, max_size=8))]}

class Login:
    def __init__(self, op, state, sub):
        self.op, self.state, self.sub = op, state, sub
        self.lg = self.verified = self.raw = self.rt = self.at = None
        self.alive = True

@test(cases(), quick=1500, thorough=25000)
def refreshed(c, t):
    with World() as w, Clock():
        ops = [OP(w, i, alg=c["alg"], tenant=c["tenants"][i]) for i in (0, 1)]
        confs = {}
        for o in ops:
            o.rotate, o.expires_in = c["rotate"], c["expires"]
            conf = client_conf(o, c["rt"][o.i], dynamic=c["dyn"])
            if c["reg"]:
                conf["client_preferences" if c["dyn"] else "behaviour"]["id_token_signed_response_alg"] = c["alg"]
            if c["skew"] is not None:
                conf["clock_skew"] = c["skew"]
            if c["allow"]:
                conf["allow"] = dict(c["allow"])
            confs["op%d" % o.i] = conf
        rph = handler(confs, drop=("userinfo",))
        logins = []

        def snapshot():
            return copy.deepcopy([dict(ctx(rp).state._db.items()) for rp in rph.issuer2rp.values()])

        def compare():
            for l in logins:
                if not l.alive or l.verified is None:
                    continue
                info = rph.get_session_information(l.state)
                got = {}
                for typ in ("auth_response", "token_response", "refresh_token_response"):
                    if typ in info:
                        item = ctx(rph.issuer2rp[l.op.issuer]).state.get_item(AccessTokenResponse, typ, l.state)
                        if "__verified_id_token" in item:
                            got = item["__verified_id_token"]
                eq(dict(got), l.verified, "the newest ID Token of a login")
                eq(rph.get_valid_access_token(l.state)[0] in l.lg.ats, True, "access token of the login itself")
                latest = [x for x in logins if x.verified is not None and x.op is l.op and x.sub == l.sub]
                if len([x for x in latest]) == 1:
                    eq(ctx(rph.issuer2rp[l.op.issuer]).state.get_state_by_sub(l.sub), l.state, "look-up by subject")
        for op in c["ops"]:
            if op[0] == "login":
                o = ops[op[1]]
                b = rph.begin("op%d" % op[1])
                l = Login(o, b["state"], op[2])
                hybrid = "id_token" in c["rt"][op[1]]
                lg, resp = o.authorize(b["url"], sub=op[2])
                l.lg = lg
                swapped = op[3] and hybrid
                if swapped:
                    lg.sub = USERS[(USERS.index(op[2]) + 1) % len(USERS)]     # the code turns out to be somebody else's
                before = len(lg.id_tokens)
                out = attempt(rph.finalize, o.issuer, resp)
                check(len(lg.id_tokens) > before, "no token request: {!r}", out)
                if swapped:
                    check(not out.ok or "error" in out.value, "a login with ID Tokens about {} and {} was completed: {!r}", op[2], lg.sub, out)
                    t.nontriv("swapped")
                    info = rph.get_session_information(l.state)
                    check("token_response" not in info, "a refused token response was recorded")
                    check(not attempt(ctx(rph.issuer2rp[o.issuer]).state.get_state_by_sub, lg.sub).ok or any(x.sub == lg.sub and x.op is o for x in logins), "found by somebody else's subject")
                    continue
                check(out.ok and "error" not in out.value, "login fails: {!r}", out)
                eq(out.value["id_token"]["sub"], op[2], "user")
                l.verified, l.raw, l.rt = dict(out.value["id_token"].to_dict()), lg.id_tokens[-1][0], lg.rts[-1]
                logins.append(l)
                compare()
                continue
            if not logins:
                continue
            l = logins[op[1] % len(logins)]
            if not l.alive:
                continue
            o = l.op
            if op[0] == "clear":
                rph.clear_session(l.state)
                l.alive = False
            elif op[0] == "logout":
                q = single(query_of(rph.logout(l.state)["url"]))
                eq(q.get("id_token_hint"), l.raw, "logout hint")
            else:
                spec = op[2]
                other = [x.lg.nonce for x in logins if x is not l] or ["other"]
                case = dict({"muts": [], "signer": "good", "tamper": "none", "hash": "ok", "where": "refresh", "rt": c["rt"][o.i], "skew": c["skew"], "alg": c["alg"]}, **(spec or {}))
                build = idt.Build(case, o, ops[1 - o.i], rph, other[0])
                if o.i and build.case["signer"] == "other_op":
                    build.case["signer"] = "evil"
                made = []

                def token(req, l=l, o=o, spec=spec, build=build, made=made):
                    eq(req.params().get("refresh_token"), l.rt, "refresh token in the request")
                    res = {"access_token": o.new_at(l.lg), "token_type": "Bearer"}
                    if o.rotate:
                        res["refresh_token"] = o.new_rt(l.lg)
                    if o.expires_in is not None:
                        res["expires_in"] = o.expires_in
                    if spec is not None:
                        res["id_token"] = build.token(l.lg)
                        o.alg = c["alg"]
                        if build.case["alg"] != c["alg"]:
                            # only what's registered dynamically is binding
                            if c["dyn"] and c["reg"]:
                                build.reject.append("not the registered algorithm")
                            else:
                                build.dontcare.append("another algorithm")
                    made.append(res)
                    return W.response(200, res)
                before = snapshot()
                ats, rts = list(l.lg.ats), list(l.lg.rts)
                o.token_hook = token
                out = attempt(rph.refresh_access_token, l.state)
                o.token_hook = None
                check(len(made) == 1, "no refresh request: {!r}", out)
                t.label("refresh", "none" if spec is None else "bad" if build.reject else "open" if build.dontcare else "good")
                if build.reject:
                    t.nontriv("refused")
                    check(not out.ok, "ID Token accepted at a refresh although: {}; claims {}", build.reject, build.claims)
                    eq(snapshot(), before, "records after a refused refresh")
                    l.lg.ats[:], l.lg.rts[:] = ats, rts
                elif build.dontcare:
                    if out.ok:
                        return
                    eq(snapshot(), before, "records after a refused refresh")
                    l.lg.ats[:], l.lg.rts[:] = ats, rts
                else:
                    check(out.ok, "a refresh with a good ID Token is refused: {!r}; claims {}", out, build.claims)
                    if o.rotate:
                        l.rt = l.lg.rts[-1]
                    if spec is not None:
                        want = dict(build.claims)
                        if isinstance(want.get("aud"), str):
                            want["aud"] = [want["aud"]]
                        l.verified, l.raw = want, made[0]["id_token"]
                        if build.unusual:
                            t.nontriv("new claims")
                    at = rph.get_valid_access_token(l.state)[0]
                    check(at in l.lg.ats, "access token of another login")
                eq(rph.has_active_authentication(l.state), l.verified["exp"] > time.time(), "active")
            compare()

