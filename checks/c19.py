"""C19: Logout requests and notifications concern exactly the intended login."""
import time
from urllib.parse import urlencode

from hypothesis import strategies as st

import world as W
from op import OP, TENANTS, World, client_conf, ctx, handler, query_of, single
from vt import attempt, check, eq, test

RULE = ("notification: several logins (generated users, session ids, two providers, some cleared) and a logout token with generated claims, signer, algorithm and transport; an independent predicate decides acceptance and a table of logins says which one it is. "
        "request: histories of logins, refreshes with and without ID Token and logout requests, decoded with the standard library and compared with a table. Non-trivial: token altered or more than one login / a refresh or other login before the logout.")
ASSUMPTIONS = ["a token that names a known session id and a subject that isn't the one of that session may be treated either way", "a token issued less than the clock skew in the future may be treated either way",
               "without registered algorithm (or with 'none') a logout token is signed with RS256, the standard's default"]

EVENT = "http://schemas.openid.net/event/backchannel-logout"
SUBS = ["u1", "u2", "ü3", "U1", " u1"]
SIDS = ["s1", "s2", "s3", None]
LOGIN = st.fixed_dictionaries({"op": st.sampled_from([0, 0, 1]), "sub": st.sampled_from(SUBS), "sid": st.sampled_from(SIDS), "finish": st.sampled_from([True, True, True, True, False])})
MUT = st.one_of(
    st.tuples(st.just("iss"), st.sampled_from(["other", "https://op1.example.org", "https://op0.example.org/", "", "https://evil.example.org", None, 17])),
    st.tuples(st.just("aud"), st.sampled_from([["client-1"], "client-0", ["client-0", "x"], [], "", None, ["client-0 "], "client-00", ["CLIENT-0"], {"client-0": 1}])),
    st.tuples(st.just("iat"), st.sampled_from(["+5", "+14", "+600", "+86400", "-5", "-100000", None, "x"])),
    st.tuples(st.just("exp"), st.sampled_from(["+100", "+0", "-5", "-600", "-100000", "x", None])),
    st.tuples(st.just("events"), st.sampled_from([None, {}, {"x": {}}, {EVENT: {}, "x": {}}, {EVENT: {"a": 1}}, {EVENT + "2": {}}, "str", [EVENT], EVENT, {EVENT: None}, {EVENT: []}])),
    st.tuples(st.just("nonce"), st.sampled_from(["n", "0", "login"])),
    st.tuples(st.just("jti"), st.sampled_from([None, "", "j2"])),
    st.tuples(st.just("sub"), st.sampled_from(SUBS + ["u9", None, ""])), st.tuples(st.just("sid"), st.sampled_from(SIDS + ["s9", ""])),
    st.tuples(st.just("extra"), st.sampled_from(["a", 1])))
ALGS = ["RS256", "ES256", "PS256", "RS384", "HS256", "none"]


@st.composite
def notifications(draw):
    return {"tenants": draw(st.sampled_from(TENANTS)), "alg": draw(st.sampled_from([None, None, None, "RS256", "ES256", "PS256", "HS256", "none"])), "dyn": draw(st.booleans()), "support": draw(st.sampled_from(["back", "back", "back", "front", "none", "front only", "back false"])),
            "rt": draw(st.sampled_from(["code", "id_token", "code id_token"])), "logins": draw(st.lists(LOGIN, min_size=1, max_size=5)), "clear": draw(st.lists(st.integers(0, 4), max_size=2)),
            "target": draw(st.integers(0, 4)), "by": draw(st.sampled_from(["sub", "sid", "both", "both"])), "muts": draw(st.lists(MUT, max_size=2)),
            "signer": draw(st.sampled_from(["op"] * 8 + ["other op", "rp", "secret", "other secret", "none", "evil header"])), "sign_alg": draw(st.sampled_from([None] * 6 + ALGS)), "kid": draw(st.sampled_from([True, True, True, False])),
            "damage": draw(st.sampled_from([None] * 10 + ["flip sig", "flip payload", "truncate", "no sig", "empty", "garbage", "missing", "twice"])), "via": draw(st.sampled_from(["request", "args"])),
            "present": draw(st.sampled_from([0, 0, 0, 0, 1]))}


def when(v):
    return int(time.time()) + int(v) if isinstance(v, str) and v[0] in "+-" else v


@test(notifications(), quick=3500, thorough=50000)
def notification(c, t):
    from oidcrp.rp_handler import backchannel_logout
    sup = {"back": {"backchannel_logout_supported": True, "backchannel_logout_session_supported": True}, "front": {"frontchannel_logout_session_supported": True}, "none": {},
           "front only": {"backchannel_logout_session_supported": False, "frontchannel_logout_session_supported": True}, "back false": {"backchannel_logout_session_supported": False}}[c["support"]]
    records = c["support"] in ("back", "front", "front only")
    reg = c["alg"]
    c["rt"] = "code" if reg == "none" else c["rt"]
    with World() as w:
        ops = [OP(w, i, meta=sup, alg=reg or "RS256", tenant=c["tenants"][i]) for i in (0, 1)]
        confs = {}
        for o in ops:
            extra = {}
            conf = client_conf(o, c["rt"], dynamic=c["dyn"], **extra)
            if reg:
                conf["client_preferences" if c["dyn"] else "behaviour"]["id_token_signed_response_alg"] = reg
            confs["op%d" % o.i] = conf
        rph = handler(confs)
        # -- the logins
        table, by = [], {"sub": {}, "sid": {}}
        for n, l in enumerate(c["logins"]):
            o = ops[l["op"]]
            begun = rph.begin("op%d" % l["op"])
            lg, resp = o.authorize(begun["url"], sub=l["sub"], sid=l["sid"])
            rec = {"state": begun["state"], "op": l["op"], "sub": l["sub"], "sid": l["sid"], "done": l["finish"], "login": lg}
            table.append(rec)
            if l["finish"]:
                out = attempt(rph.finalize, o.issuer, resp)
                if not out.ok or "error" in out.value:
                    if reg == "none" and not c["dyn"]:
                        return t.label("unsigned not possible")     # not what this is about
                    check(False, "the login fails: {!r}", out)
                by["sub"][(l["op"], l["sub"])] = rec["state"]
                if l["sid"] and records:
                    by["sid"][(l["op"], l["sid"])] = rec["state"]
        for i in c["clear"]:
            if i < len(table) and table[i]["done"] is not None:
                rph.clear_session(table[i]["state"])
                table[i]["done"] = None
                for m in by.values():
                    for k in [k for k, v in m.items() if v == table[i]["state"]]:
                        del m[k]
        # -- the notification
        tgt = table[c["target"] % len(table)]
        o = ops[tgt["op"]]
        presented = c["present"] if c["present"] else tgt["op"]
        rp = rph.issuer2rp.get(ops[presented].issuer) or rph.issuer2rp[o.issuer]
        presented = ops[0].i if rp is rph.issuer2rp.get(ops[0].issuer) else 1
        cid = ctx(rp).client_id
        own = ctx(rph.issuer2rp[o.issuer]).client_id
        now = int(time.time())
        claims = {"iss": o.issuer, "aud": [own], "iat": now, "jti": "j1", "events": {EVENT: {}}}
        if c["by"] in ("sub", "both"):
            claims["sub"] = tgt["sub"]
        if c["by"] in ("sid", "both") and tgt["sid"]:
            claims["sid"] = tgt["sid"]
        for k, v in c["muts"]:
            if v is None:
                claims.pop(k, None)
            else:
                v = ops[1 - o.i].issuer if (k, v) == ("iss", "other") else v
                claims[k] = tgt["login"].nonce or "n" if (k, v) == ("nonce", "login") else when(v) if k in ("iat", "exp") else v
                if k == "aud" and own != "client-0":
                    claims[k] = [a.replace("client-0", own) for a in v] if isinstance(v, list) else v.replace("client-0", own) if isinstance(v, str) else {own: 1}
        want_alg = reg if reg and reg != "none" else "RS256"
        alg = c["sign_alg"] or want_alg
        secret = o.secret
        signer_ok = c["signer"] == "op" and o.i == presented
        owner = o.owner
        if c["signer"] == "other op":
            owner = ops[1 - o.i].owner
            secret = ops[1 - o.i].secret or "z" * 40
        elif c["signer"] == "rp":
            owner = "rp"
            alg = "RS256" if alg not in ("RS256", "ES256") else alg
        elif c["signer"] == "secret":
            alg = "HS256"
            signer_ok = o.i == presented
        elif c["signer"] == "other secret":
            alg, secret = "HS256", "q" * 40
        elif c["signer"] == "none":
            alg = "none"
        hdr = None
        if c["signer"] == "rp" and alg.startswith("HS"):
            secret = "r" * 40
        if alg == "HS256" and c["signer"] in ("op", "secret"):
            secret = ctx(rph.issuer2rp[o.issuer]).client_secret
        if c["signer"] == "evil header":
            tok = W.sign(claims, "RS256", owner="op1" if o.i == 0 else "op0", headers={"jwk": W.key("op1_rsa" if o.i == 0 else "op0_rsa").serialize(), "jku": "https://evil.example.org/jwks"})
            alg = "RS256"
        else:
            tok = W.sign(claims, alg, owner=owner, secret=secret, kid=c["kid"], headers=hdr)
        d = c["damage"]
        h, p, s = tok.split(".")
        if d == "flip sig":
            tok = ".".join([h, p, ("A" if s[:1] != "A" else "B") + s[1:]])
        elif d == "flip payload":
            tok = ".".join([h, W.b64(__import__("json").dumps(dict(claims, sub="evil")).encode()), s])
        elif d == "truncate":
            tok = tok[:-10]
        elif d == "no sig":
            tok = h + "." + p + "."
        elif d in ("empty", "garbage"):
            tok = "" if d == "empty" else "a.b"
        if d == "missing":
            req = {"other": tok}
        else:
            req = {"logout_token": tok}
        if c["via"] == "request":
            out = attempt(backchannel_logout, rp, request=urlencode(req) if d != "twice" else urlencode(req) + "&" + urlencode(req))
        else:
            out = attempt(backchannel_logout, rp, request_args=req)
        # -- the oracle
        maybe = False
        ok = signer_ok and alg == want_alg and (not d or d == "twice")
        if d == "twice" and c["via"] == "request":
            maybe = True
        if not c["kid"] and alg not in ("HS256", "none"):
            maybe = True      # the keys of a provider usually have identifiers
        ok = ok and claims.get("iss") == ops[presented].issuer
        aud = claims.get("aud")
        ok = ok and (aud == cid or (isinstance(aud, list) and cid in aud))
        ok = ok and claims.get("events") == {EVENT: {}} and "nonce" not in claims and bool(claims.get("jti"))
        iat = claims.get("iat")
        ok = ok and isinstance(iat, int) and iat <= now + 15
        if ok and iat > now:
            maybe = True
        exp = claims.get("exp")
        if "exp" in claims:
            ok = ok and isinstance(exp, int) and exp >= now - 15
            if ok and exp < now + 2:
                maybe = True
        sub, sid = claims.get("sub"), claims.get("sid")
        state = None
        if sid:
            state = by["sid"].get((presented, sid))
            if state and sub:
                r = [x for x in table if x["state"] == state][0]
                if r["sub"] != sub:
                    maybe = True
            if state is None and sub:
                state = by["sub"].get((presented, sub))
                if state:
                    r = [x for x in table if x["state"] == state][0]
                    if r["sid"] and r["sid"] != sid:
                        state = None
        elif sub:
            state = by["sub"].get((presented, sub))
        if sub == "" or sid == "":
            maybe = True
        ok = ok and state is not None
        what = "logout token {!r} ({} {} {}), logins {}".format(claims, c["signer"], alg, d, [(x["op"], x["sub"], x["sid"], x["state"], x["done"]) for x in table])
        if out.ok:
            check(ok, "accepted as {!r}: {}", out.value, what)
            if not maybe or out.value != state:
                eq(out.value, state, "login named by " + what)
        elif ok and not maybe:
            check(False, "{!r} for {}", out, what)
        t.label("accepted" if out.ok else "refused", "signer:" + c["signer"], "support:" + c["support"])
        if c["muts"] or d or c["signer"] != "op" or len(table) > 1:
            t.nontriv()


@st.composite
def histories(draw):
    ops = draw(st.lists(st.one_of(st.tuples(st.just("login"), st.integers(0, 1), st.sampled_from(["u1", "u2"])), st.tuples(st.just("refresh"), st.integers(0, 3), st.booleans()),
                                  st.tuples(st.just("logout"), st.integers(0, 3), st.sampled_from([None, None, "https://rp.example.com/bye", "https://rp.example.com/bye?a=1&b=ü"]), st.sampled_from(["logout", "close", "close iss", "service", "service own state"])),
                                  st.tuples(st.just("clear"), st.integers(0, 3))), min_size=2, max_size=9))
    return {"tenants": draw(st.sampled_from(TENANTS)), "rt": draw(st.sampled_from(["code", "code", "id_token", "id_token token", "code id_token", "code token"])), "dyn": draw(st.booleans()), "ops": [["login", 0, "u1"]] + [list(x) for x in ops],
            "query": draw(st.sampled_from(["", "", "?x=1&y=a%26b"])), "uris": draw(st.sampled_from([None, None, ["https://rp.example.com/a"], ["https://rp.example.com/b?c=d", "https://rp.example.com/a"], "https://rp.example.com/str"])),
            "where": draw(st.sampled_from(["config", "prefs"])), "channels": draw(st.lists(st.sampled_from(["backchannel_logout_uri", "frontchannel_logout_uri"]), max_size=2, unique=True)), "no_ep": draw(st.sampled_from([False] * 8 + [True]))}


@test(histories(), quick=1600, thorough=25000)
def request(c, t):
    import json
    with World() as w:
        regs = {}
        ops = [OP(w, i, endpoint_query=c["query"], meta={"end_session_endpoint": None} if c["no_ep"] else None, tenant=c["tenants"][i]) for i in (0, 1)]
        confs = {}
        uris = c["uris"]
        if c["dyn"] and isinstance(uris, str):
            uris = [uris]
        for o in ops:
            o.refresh_idt = False

            def reg(req, o=o):
                regs[o.i] = json.loads(req.body)
                return o.register(req)
            o.reg_hook = reg
            conf = client_conf(o, c["rt"], dynamic=c["dyn"])
            if uris:
                if c["dyn"] and c["where"] == "prefs":
                    conf["client_preferences"]["post_logout_redirect_uris"] = uris
                else:
                    conf["post_logout_redirect_uris"] = uris
            if c["dyn"]:
                for ch in c["channels"]:
                    conf[ch] = "https://rp.example.com/" + ch
            confs["op%d" % o.i] = conf
        rph = handler(confs)
        logins, used = [], {}
        for op in c["ops"]:
            if op[0] == "login":
                o = ops[op[1]]
                begun = rph.begin("op%d" % op[1])
                lg, resp = o.authorize(begun["url"], sub=op[2])
                out = rph.finalize(o.issuer, resp)
                check("error" not in out, "login fails: {}", out)
                logins.append({"state": begun["state"], "lg": lg, "op": o, "alive": True})
                continue
            l = logins[op[1] % len(logins)]
            if not l["alive"]:
                continue
            o = l["op"]
            if op[0] == "refresh":
                if "code" not in c["rt"].split() or not l["lg"].rts:
                    continue
                o.refresh_idt = op[2]
                rph.refresh_access_token(l["state"])
                t.nontriv("refresh")
            elif op[0] == "clear":
                rph.clear_session(l["state"])
                l["alive"] = False
            else:
                kw = {"post_logout_redirect_uri": op[2]} if op[2] else {}
                mine = None
                if op[3] == "logout":
                    out = attempt(rph.logout, l["state"], **kw)
                elif op[3] == "close":
                    out = attempt(rph.close, l["state"], **kw)
                elif op[3] == "close iss":
                    out = attempt(rph.close, l["state"], issuer=o.issuer, **kw)
                else:
                    args = dict(kw)
                    if op[3] == "service own state":
                        mine = "logout/{} &=".format(len(used)).ljust([24, 33, 80][len(used) % 3], "x")
                        args["state"] = mine
                    srv = rph.issuer2rp[o.issuer].client_get("service", "end_session")
                    out = attempt(srv.get_request_parameters, state=l["state"], request_args=args)
                if c["no_ep"]:
                    check(not out.ok, "logout at a provider without logout endpoint: {!r}", out)
                    continue
                check(out.ok, "logout: {!r}", out)
                info = out.value
                eq(info["method"], "GET", "method")
                url = info["url"]
                base, _, _ = url.partition("?")
                eq(base, o.base + "/logout", "endpoint")
                q = query_of(url)
                fixed = query_of(o.ep("end_session_endpoint"))
                for pair in fixed:
                    check(pair in q, "{} of the endpoint is lost in {}", pair, url)
                    q.remove(pair)
                q = single(q)
                toks = l["lg"].id_tokens
                hint = q.pop("id_token_hint", None)
                if toks:
                    # a token that never reached the client can't be the hint
                    eq(hint, toks[-1][0], "ID Token of the login, {} were issued".format(len(toks)))
                else:
                    eq(hint, None, "hint without ID Token")
                st_ = q.pop("state", None)
                check(isinstance(st_, str) and len(st_) >= 16, "logout state {!r}", st_)
                check(st_ not in used and st_ not in [x["state"] for x in logins], "logout state {} again", st_)
                if mine:
                    eq(st_, mine, "logout state that the caller gave")
                used[st_] = l["state"]
                addr = q.pop("post_logout_redirect_uri", None)
                if op[2]:
                    eq(addr, op[2], "return address asked for")
                elif c["dyn"]:
                    announced = regs[o.i].get("post_logout_redirect_uris")
                    eq(addr, announced[0] if announced else None, "return address, registered are {}".format(announced))
                    if uris:
                        eq(announced, uris, "registered return addresses")
                else:
                    eq(addr, (uris if isinstance(uris, str) else uris[0]) if uris else None, "configured return address")
                eq(q, {}, "other parameters of " + url)
                t.label("logout")
                if len(logins) > 1:
                    t.nontriv("several logins")
            for s_, state in used.items():
                c_ = [x for x in logins if x["state"] == state][0]
                got = attempt(ctx(rph.issuer2rp[c_["op"].issuer]).state.get_state_by_logout_state, s_)
                if c_["alive"]:
                    check(got.ok and got.value == state, "logout state {} of {}: {!r}", s_, state, got)
                else:
                    check(not got.ok, "logout state of a cleared login: {!r}", got)
                for o2 in ops:
                    if o2 is not c_["op"] and o2.issuer in rph.issuer2rp:
                        check(not attempt(ctx(rph.issuer2rp[o2.issuer]).state.get_state_by_logout_state, s_).ok, "logout state known with another provider")
