"""C01: ID Token acceptance, in the redirect and from the token endpoint."""
import json

from hypothesis import strategies as st

import world as W
from clock import Clock
from idt import ALGS, BACK, FRONT, MUT, SIGNERS, TAMPER, Build
from op import OP, RT, World, client_conf, handler
from vt import attempt, check, eq, fail, test

RULE = ("Case = response type x registered algorithm x clock skew x where the token is delivered x signing key/algorithm x up to 3 "
        "claim mutations x optional byte tampering. Non-trivial: the login got as far as presenting an ID Token whose claims, key, "
        "algorithm or bytes differ from the plain good one, or a good one with unusual but valid claims.")
ASSUMPTIONS = ["cryptojwt/oidcmsg produce and verify signatures correctly", "the clock (time.time, datetime) is replaced by one that stands still during a login"]

# what the standard defines for ID Tokens besides the subject
PROTOCOL = ["iss", "aud", "exp", "iat", "auth_time", "nonce", "at_hash", "c_hash", "acr", "amr", "azp", "sub_jwk", "sid"]


@st.composite
def cases(draw):
    rt = draw(st.sampled_from(RT))
    # tokens can be collected from the token endpoint although the redirect brought an access token
    collect = rt == "code token" or rt == "code id_token token" and draw(st.booleans())
    where = draw(st.sampled_from([w for w in ["front", "back"] if rt in FRONT and w == "front" or w == "back" and (collect or rt in BACK)]))
    mode = draw(st.sampled_from(["good", "mut", "mut", "mut", "sign", "tamper", "hash", "mix"]))
    c = {"rt": rt, "where": where, "collect": collect,
         "dynamic": draw(st.booleans()),
         "reg": draw(st.sampled_from([None, None, "match", "match", "other", "none"])),
         "reg_by": draw(st.sampled_from(["preference", "provider", "both"])),
         "alg": draw(st.sampled_from(ALGS)),
         "skew": draw(st.sampled_from([None, 0, 1, 15, 120, 600])),
         "allow": draw(st.sampled_from([None, None, {"missing_kid": True}, {"missing_kid": False}])),
         "signer": "good", "tamper": "none", "muts": [], "hash": "ok"}
    if mode in ("mut", "mix"):
        c["muts"] = draw(st.lists(MUT, min_size=1, max_size=3 if mode == "mix" else 2, unique_by=lambda m: m[0]))
    if mode in ("sign", "mix"):
        c["signer"] = draw(st.sampled_from(SIGNERS))
        if c["signer"] in ("pub_as_hmac", "wrong_secret"):
            c["alg"] = "HS256"
    if mode == "tamper":
        c["tamper"] = draw(st.sampled_from(TAMPER))
    if mode in ("hash", "mix"):
        c["hash"] = draw(st.sampled_from(["ok", "at_wrong", "at_missing", "c_wrong", "c_missing", "at_full", "swapped", "value_swapped"]))
    return c


@test(cases(), quick=5000, thorough=60000)
def id_token_acceptance(case, t):
    with World() as w, Clock():
        op, other = OP(w, 0, alg="RS256"), OP(w, 1)
        rt = case["rt"]
        conf = client_conf(op, rt, dynamic=case["dynamic"])
        if case["skew"] is not None:
            conf["clock_skew"] = case["skew"]
        if case.get("allow"):
            conf["allow"] = dict(case["allow"])
        reg = None
        if case["dynamic"] and case["reg"]:
            reg = {"match": case["alg"], "other": "ES256" if case["alg"] != "ES256" else "RS256", "none": "none"}[case["reg"]]
            by = case.get("reg_by", "preference")
            if by != "provider":
                conf["client_preferences"]["id_token_signed_response_alg"] = reg
            if by != "preference":
                # the provider states in the registration response what it is going to use
                def register(req, _orig=op.register):
                    r = _orig(req)
                    return W.response(201, dict(json.loads(r.text), id_token_signed_response_alg=reg))
                op.reg_hook = register
            op.meta["id_token_signing_alg_values_supported"] = ALGS + ["none"]
        rh = handler({op.issuer: conf, other.issuer: client_conf(other, "code")})
        oth = rh.begin(op.issuer)       # another open login at the same provider
        other_nonce = W.parse_qsl(W.urlsplit(oth["url"]).query)
        other_nonce = dict(other_nonce)["nonce"]
        if case["signer"] == "other_op":
            rh.begin(other.issuer)
        started = rh.begin(op.issuer)
        b = Build(case, op, other, rh, other_nonce)
        good = op.id_token
        gen = {"n": 0}

        def maker(lg, at=None, code=None, **kw):
            first = gen["n"] == 0
            gen["n"] += 1
            is_front = at is not None or code is not None or (first and "id_token" in lg.rt.split(" "))
            if (case["where"] == "front") == is_front:
                return b.token(lg, at, code)
            op.alg = case["alg"]
            return good(lg, at, code)

        op.id_token = maker
        lg, resp = op.authorize(started["url"])
        behaviour = {"collect_tokens": True} if case.get("collect") else None
        if case["where"] == "front" and case["hash"] == "value_swapped" and "code" in resp:
            # a code from somewhere else injected into an otherwise genuine response
            resp["code"] = "injected-code"
            b.reject.append("code does not match c_hash")
        if reg and reg != case["alg"]:
            b.reject.append("algorithm differs from the registered one")
        if reg == "none" and case["tamper"] == "alg_none":
            # unsigned is exactly what the client explicitly registered: not refusing it is allowed
            t.label("registered none")
            attempt(rh.finalize, op.issuer, resp, behaviour_args=behaviour)
            return
        rejected = list(b.reject)
        out = attempt(rh.finalize, op.issuer, resp, behaviour_args=behaviour)
        if case["where"] == "back":
            if b.claims is None:
                if rejected:        # refused already at the redirect, for the algorithm
                    check(not out.ok, "accepted although {}", rejected)
                    t.nontriv("alg mismatch")
                    return
                fail("login stopped before the token request: {!r}", out)
        rejected = b.reject
        if b.unusual or rejected:
            t.nontriv()
        t.label("where:" + case["where"], "rt:" + rt, "reject" if rejected else "accept", "dynamic" if case["dynamic"] else "static")
        if rejected:
            for r in rejected[:1]:
                t.label("why:" + r.split(" ")[0])
            if out.ok and not (isinstance(out.value, dict) and out.value.get("error")):
                fail("ID Token accepted although: {}; claims {}", rejected, b.claims)
            info = attempt(rh.get_session_information, started["state"])
            if info.ok:
                txt = json.dumps(info.value.to_dict())
                check("__verified_id_token" not in txt or case["where"] == "back" and "id_token" in rt,
                      "a refused ID Token is recorded as verified: {}", rejected)
            check(not rh.has_active_authentication(started["state"]) or (case["where"] == "back" and "id_token" in rt),
                  "active authentication after a refused ID Token: {}", rejected)
        elif b.dontcare:
            t.label("dontcare")
        else:
            check(out.ok, "valid ID Token refused: {!r}; claims {}", out, b.claims)
            res = out.value
            check("error" not in res, "valid ID Token led to error {}", res)
            got = res["id_token"]
            if case["where"] == "back" or rt != "code id_token" and not case.get("collect"):
                check(got is not None, "no ID Token reported")
                want = dict(b.claims)
                if isinstance(want.get("aud"), str):
                    want["aud"] = [want["aud"]]
                eq(got.to_dict(), want, "reported ID Token claims")
            eq(res["state"], started["state"], "state")
            if rt == "id_token":
                eq({k: v for k, v in dict(res["userinfo"]).items()}.get("sub"), lg.sub, "subject")
                about_user = {k: v for k, v in want.items() if k not in PROTOCOL}
                eq({k: v for k, v in dict(res["userinfo"]).items() if k not in PROTOCOL}, about_user, "user information from the ID Token")


@test(st.fixed_dictionaries({"rt": st.sampled_from(FRONT), "first": st.sampled_from(["front", "back"]),
                             "alg": st.sampled_from(["RS256", "ES256"]), "n": st.integers(2, 4), "use": st.integers(0, 3),
                             "present": st.integers(0, 3)}), quick=800, thorough=8000)
def token_of_other_login(case, t):
    """A perfectly good ID Token issued for one login is presented in another login of the same client."""
    with World() as w:
        op = OP(w, 0, alg=case["alg"])
        rt = case["rt"] if case["first"] == "front" else "code"
        rh = handler({op.issuer: client_conf(op, rt)})
        logins = []
        for i in range(case["n"]):
            r = rh.begin(op.issuer)
            lg, resp = op.authorize(r["url"], sub="user%d" % i)
            logins.append((r, lg, resp))
        i, j = case["use"] % case["n"], case["present"] % case["n"]
        same = i == j
        if case["first"] == "front":
            resp = dict(logins[j][2])
            donor = logins[i][2]
            for k in ("id_token", "access_token", "code"):
                if k in donor:
                    resp[k] = donor[k]
        else:
            resp = dict(logins[j][2])
            donor_idt = op.id_token(logins[i][1])
            op.id_token = lambda lg, at=None, code=None, **kw: donor_idt
        out = attempt(rh.finalize, op.issuer, resp)
        t.nontriv("same" if same else "crossed")
        if same:
            check(out.ok and "error" not in out.value, "own ID Token refused: {!r}", out)
        else:
            check(not out.ok, "the ID Token of another login was accepted")
            check(not rh.has_active_authentication(logins[j][0]["state"]), "login became authenticated by another login's ID Token")
