"""C02: an authorization response only affects the login it belongs to."""
import json
from urllib.parse import urlencode

from hypothesis import strategies as st

import world as W
from op import OP, TENANTS, RT, World, client_conf, ctx, handler
from vt import attempt, check, eq, fail, test

RULE = ("Case = several open logins at two providers (and a second handler), some of them completed or cleared, and one presented "
        "response with up to 3 alterations (state, issuer presented for, iss/client_id/aud, error, forged internal keys, missing or "
        "foreign material). Non-trivial: at least one alteration, at least two open logins.")
ASSUMPTIONS = ["the simulated provider answers each code with the tokens of the login the code was issued for"]

ALTER = st.one_of(
    st.tuples(st.just("state"), st.sampled_from(["other_same_op", "other_op", "unknown", "missing", "empty", "cleared", "suffix", "prefix",
                                                 "swapcase", "space", "nonce", "refkey", "other_handler"])),
    st.tuples(st.just("present"), st.sampled_from(["other_op", "other_handler"])),
    st.tuples(st.just("iss"), st.sampled_from(["right", "other", "slash", "upper", "empty", "client"])),
    st.tuples(st.just("client_id"), st.sampled_from(["right", "other", "superstring", "empty"])),
    st.tuples(st.just("aud"), st.sampled_from(["right", "other"])),
    st.tuples(st.just("error"), st.sampled_from(["only", "with_all", "no_state", "with_desc"])),
    st.tuples(st.just("forge"), st.sampled_from(["dict", "json", "jwt", "other_login"])),
    st.tuples(st.just("material"), st.sampled_from(["drop_id_token", "drop_access_token", "drop_code", "foreign_id_token", "evil_id_token",
                                                    "foreign_all", "unknown_code", "extra_params"])),
)


@st.composite
def cases(draw):
    return {"tenants": draw(st.sampled_from(TENANTS)), "rt": [draw(st.sampled_from(RT)), draw(st.sampled_from(RT))],
            "dyn": draw(st.booleans()),
            "userinfo": draw(st.booleans()),
            "logins": draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["open", "open", "open", "done", "cleared"])), min_size=1, max_size=5)),
            "pick": draw(st.integers(0, 4)),
            "alter": draw(st.lists(ALTER, min_size=0, max_size=3, unique_by=lambda a: a[0])),
            "reverse": draw(st.booleans())}


def front(rt):
    return "id_token" in rt.split(" ")


def has_token(rt):
    return "token" in rt.split(" ")


@test(cases(), quick=4000, thorough=50000)
def response_vs_session(case, t):
    with World() as w:
        ops = [OP(w, 0, tenant=case["tenants"][0]), OP(w, 1, tenant=case["tenants"][1])]
        drop = () if case["userinfo"] else ("userinfo",)

        def mk():
            return handler({o.issuer: client_conf(o, case["rt"][o.i], dynamic=case["dyn"]) for o in ops}, drop=drop)
        rh, rh2 = mk(), mk()
        logins = []
        for o, status in case["logins"]:
            r = rh.begin(ops[o].issuer)
            lg, resp = ops[o].authorize(r["url"], sub="user%d" % len(logins), sid="sid%d" % len(logins))
            if status == "done":
                out = attempt(rh.finalize, ops[o].issuer, dict(resp))
                if case["rt"][o] == "code token" and not case["userinfo"]:
                    pass      # no identity available at all in this flow without user info
                else:
                    check(out.ok and "error" not in out.value, "plain login failed: {!r}", out)
                status = "open"
                resp = ops[o].authorize(r["url"], sub="user%d" % len(logins), sid="sid%d" % len(logins))[1]
            elif status == "cleared":
                rh.clear_session(r["state"])
            logins.append((o, status, r["state"], lg, resp))
        # one login for each provider and in the second handler so that "other" always exists
        other2 = rh2.begin(ops[0].issuer)["state"]
        rh2.begin(ops[1].issuer)
        spare = {}
        for o in (0, 1):
            r = rh.begin(ops[o].issuer)
            spare[o] = (r["state"],) + ops[o].authorize(r["url"], sub="spare%d" % o)
        me = logins[case["pick"] % len(logins)]
        o, status, own_state, lg, resp = me
        rt = case["rt"][o]
        resp = dict(resp)
        lg = [q for q in ops[o].logins if q.state == own_state][-1]
        reject = []
        target, present_handler = o, rh
        alter = list(case["alter"])
        if case["reverse"]:
            alter.reverse()
        is_error = False
        crossed = False          # material of another login: refused, but maybe first in a later step
        for name, how in alter:
            if name == "state":
                v = {"other_same_op": spare[o][0], "other_op": spare[1 - o][0], "unknown": "W4hxkzuPbOOClc0hUEDzqUMXqVHKLpn5", "missing": None,
                     "empty": "", "suffix": own_state + "x", "prefix": own_state[:-1], "swapcase": own_state.swapcase(),
                     "space": own_state + " ", "nonce": "__nonce__" + (lg.nonce or "x"), "refkey": "ref%sref" % own_state,
                     "other_handler": other2}.get(how)
                if how == "cleared":
                    cl = [x for x in logins if x[1] == "cleared"]
                    v = cl[0][2] if cl else "gone"
                if v is None:
                    resp.pop("state", None)
                else:
                    resp["state"] = v
            elif name == "present":
                if how == "other_op":
                    target = 1 - o
                else:
                    present_handler = rh2
            elif name == "iss":
                resp["iss"] = {"right": ops[o].issuer, "other": ops[1 - o].issuer, "slash": ops[o].issuer + "/",
                               "upper": ops[o].issuer.upper(), "empty": "", "client": lg.client_id}[how]
            elif name == "client_id":
                resp["client_id"] = {"right": lg.client_id, "other": "client-x", "superstring": lg.client_id + "1", "empty": ""}[how]
            elif name == "aud":
                resp["aud"] = [lg.client_id] if how == "right" else ["somebody-else"]
            elif name == "error":
                is_error = True
                resp["error"] = "access_denied"
                if how == "only":
                    resp = {k: v for k, v in resp.items() if k in ("error", "state", "iss")}
                elif how == "no_state":
                    resp = {"error": "access_denied"}
                elif how == "with_desc":
                    resp["error_description"] = "no"
            elif name == "forge":
                claims = ops[o].id_claims(lg, sub="victim")
                fake = {"dict": claims, "json": json.dumps(claims),
                        "jwt": W.sign(claims, "RS256", owner="evil"),
                        "other_login": ops[o].id_claims(spare[o][1])}[how]
                resp["__verified_id_token"] = fake
            elif name == "material":
                if how.startswith("drop_"):
                    k = how[5:]
                    if resp.pop(k, None) is not None:
                        if k == "id_token" and (rt != "code id_token") or k == "code" and rt in ("code", "code id_token") or \
                                k == "access_token":
                            reject.append("missing " + k)
                        else:
                            crossed = "maybe"
                elif how == "foreign_id_token":
                    if "id_token" in resp:
                        resp["id_token"] = ops[o].id_token(spare[o][1], at=resp.get("access_token"), code=resp.get("code"))
                        reject.append("foreign ID Token")
                elif how == "evil_id_token":
                    if "code" in rt.split(" ") or True:
                        c = ops[o].id_claims(lg, at=resp.get("access_token"), code=resp.get("code"), sub="victim")
                        resp["id_token"] = W.sign(c, "RS256", owner="evil")
                        reject.append("ID Token with a wrong signature")
                elif how == "foreign_all":
                    st_ = resp.get("state")
                    foreign = dict(spare[o][2])
                    for k in ("code", "access_token", "id_token"):
                        if k in foreign:
                            resp[k] = foreign[k]
                    if rt == "code token":
                        crossed = "maybe"       # OAuth2 flow without anything that binds the token
                    else:
                        reject.append("material of another login")
                elif how == "unknown_code":
                    if "code" in resp:
                        resp["code"] = "no-such-code"
                        if "id_token" in resp or rt in ("code", "code id_token"):
                            reject.append("unknown code")
                        else:
                            crossed = "maybe"
                elif how == "extra_params":
                    resp["session_state"] = "ss"
                    resp["foo"] = "bar"
        d_alter = dict(case["alter"])
        if d_alter.get("state") == "other_same_op" and str(d_alter.get("material", "")).startswith("foreign"):
            t.label("skipped: complete response of the other login")
            return
        # -- expectation ----------------------------------------------------
        st_ = resp.get("state")
        if present_handler is rh:
            table = {x[2]: x[0] for x in logins if x[1] != "cleared"}
            table.update({spare[i][0]: i for i in (0, 1)})
        else:
            table = {other2: 0}
            table.update({k: v for k, v in {}.items()})
        pre = []
        if st_ not in table:
            pre.append("no such open login")
        elif table[st_] != target:
            pre.append("login was begun with another provider")
        if resp.get("iss") and resp["iss"] != ops[target].issuer:
            pre.append("iss is not the provider")
        cid_target = ctx(present_handler.issuer2rp[ops[target].issuer]).client_id
        if resp.get("client_id") and resp["client_id"] != cid_target:
            pre.append("client_id is another client")
        if "aud" in resp and cid_target not in resp["aud"]:
            pre.append("audience is another client")
        if not pre and st_ != own_state:
            # another login's response in a live login
            if rt == "code token":
                crossed = "maybe"
            elif rt == "code id_token" or front(rt) or rt == "code":
                reject.append("response of another login")
        # what has to stay: everything if refused at the redirect, else everything but this login
        clients = [(h, i) for h in (rh, rh2) for i in (0, 1)]

        def snap():
            return [dict(ctx(h.issuer2rp[ops[i].issuer]).state._db) for h, i in clients]

        before = snap()
        mark = len(w.log)
        given = dict(resp)
        out = attempt(present_handler.finalize, ops[target].issuer, resp)
        after = snap()
        n_alter = len(case["alter"])
        if n_alter:
            t.nontriv(*["%s:%s" % tuple(a) for a in case["alter"]])
        t.label("rt:" + rt)
        failed = (not out.ok) or (isinstance(out.value, dict) and "error" in out.value)
        if is_error:
            t.label("error response")
            check(failed, "an error response led to a completed login: {!r}", out)
            if out.ok:
                check(set(out.value) <= {"state", "error"}, "an error response yields more than the error: {}", out.value)
            eq(after, before, "session store after an error response")
            eq(len(w.log), mark, "requests made after an error response")
            return
        if pre:
            t.label("refuse at redirect")
            check(failed, "response accepted although {}: {!r}", pre, out)
            eq(after, before, "session stores after a response refused because " + "; ".join(pre))
            eq([r for r in w.log[mark:] if r.path in ("/token", "/userinfo")], [], "requests made for a refused response")
            return
        key = st_

        def trusted():
            """Nothing is recorded as verified that no valid ID Token had."""
            info = json.loads(after[clients.index((present_handler, target))][key])
            for typ in ("auth_response", "token_response", "refresh_token_response"):
                v = info.get(typ)
                if v:
                    v = json.loads(v) if isinstance(v, str) else v
                    vt_ = v.get("__verified_id_token")
                    if vt_:
                        vt_ = json.loads(vt_) if isinstance(vt_, str) else vt_
                        good = [x[1] for x in lg.id_tokens] + [c for q in ops[target].logins if q.state == key for _, c in q.id_tokens]
                        check(any(g["sub"] == vt_["sub"] and g.get("nonce") == vt_.get("nonce") for g in good),
                              "claims recorded as verified that no valid ID Token had: {}", vt_)
                        check(v.get("id_token"), "claims recorded as verified without an ID Token: {}", vt_)

        allowed = {key, "ref%sref" % key}
        if reject:
            t.label("refuse")
            check(failed, "response accepted although {}: {!r}", reject, out)
            for (b, a), (h, i) in zip(zip(before, after), clients):
                if (h, i) == (present_handler, target):
                    b = {k: v for k, v in b.items() if k not in allowed}
                    a = {k: v for k, v in a.items() if k not in allowed}
                eq(a, b, "other sessions after a refused response ({})".format(reject))
            trusted()
            return
        for (b, a), (h, i) in zip(zip(before, after), clients):
            if (h, i) == (present_handler, target):
                b = {k: v for k, v in b.items() if k not in allowed and a.get(k) != key}
                a = {k: v for k, v in a.items() if k not in allowed and v != key}
            eq(a, b, "other sessions after an accepted response")
        trusted()
        if crossed == "maybe":
            t.label("unbound OAuth2 material")
            return
        if rt == "code token" and not case["userinfo"]:
            t.label("no identity source")
            return
        t.label("accept")
        check(not failed, "the login's own response was refused: {!r}; response {}", out, given)
        eq(out.value["state"], own_state, "state")
        if out.value.get("id_token") is not None:
            eq(out.value["id_token"]["sub"], lg.sub, "subject")
            eq(out.value["id_token"].get("nonce"), lg.nonce, "nonce")
        if out.value.get("token"):
            mine = [x for q in ops[o].logins if q.state == own_state for x in q.ats]
            check(out.value["token"] in mine, "token {} was not issued to this login", out.value["token"])
        if case["userinfo"] and out.value.get("token"):
            eq(dict(out.value["userinfo"]).get("sub"), lg.sub, "user info subject")


@test(st.fixed_dictionaries({"rt": st.sampled_from(RT), "via": st.sampled_from(["query", "fragment", "plain", "both"]),
                             "extra": st.dictionaries(st.text("abcxyz_", min_size=3, max_size=6), st.text(max_size=8), max_size=3),
                             "suffix": st.text("+/=&% é#?", max_size=5)}), quick=600, thorough=6000)
def url_form_of_response(case, t):
    """A response given as a URL (query or fragment) is parsed to the same as the dictionary."""
    with World() as w:
        op = OP(w, 0)
        op.suffix = case["suffix"]
        rh = handler({op.issuer: client_conf(op, case["rt"])})
        r = rh.begin(op.issuer)
        lg, resp = op.authorize(r["url"])
        resp.update({k: v for k, v in case["extra"].items() if k not in resp and v})
        enc = urlencode(resp)
        info = {"query": "https://rp.example.com/cb?" + enc, "fragment": "https://rp.example.com/cb#" + enc, "plain": enc,
                "both": "https://rp.example.com/cb?" + enc + "#_=_"}[case["via"]]
        srv = rh.issuer2rp[op.issuer].get_service("authorization")
        a = srv.parse_response(dict(resp), sformat="dict")
        b = srv.parse_response(info, sformat="urlencoded")
        if case["suffix"] or case["extra"]:
            t.nontriv(case["via"])
        da, db = a.to_dict(), b.to_dict()
        for d in (da, db):
            if "expires_in" in d:
                d["expires_in"] = int(d["expires_in"])
        eq(db, da, "parsed URL response compared with the same response as a dictionary")
        for k, v in resp.items():
            if k != "expires_in":
                eq(da.get(k), v, "parameter " + k)


NEAR = ["exact", "other", "slash", "suffix", "host_suffix", "prefix", "upper", "http", "empty", "path", "fragment", "client"]


@test(st.fixed_dictionaries({"rt": st.sampled_from(RT), "near": st.sampled_from(NEAR), "dyn": st.booleans(), "done": st.booleans(),
                             "issuer": st.sampled_from(["https://op0.example.org", "https://op0.example.org/", "https://op0.example.org/t/1"])}),
      quick=800, thorough=8000)
def presented_for(case, t):
    """finalize_auth: the issuer the caller got the response for has to be the one the login was begun with, exactly."""
    with World() as w:
        op, other = OP(w, 0, issuer=case["issuer"]), OP(w, 1)
        rh = handler({"a": client_conf(op, case["rt"], dynamic=case["dyn"]), "b": client_conf(other, case["rt"])})
        r = rh.begin("a")
        rh.begin("b")
        iss = op.issuer
        client = rh.issuer2rp[iss]
        lg, resp = op.authorize(r["url"])
        if case["done"] and case["rt"] != "code token":
            rh.finalize(iss, dict(resp))
            lg, resp = op.authorize(r["url"], sub="second")
        given = {"exact": iss, "other": other.issuer, "slash": iss + "/", "suffix": iss + "x", "host_suffix": iss.rstrip("/") + ".evil.example",
                 "prefix": iss[:-1], "upper": iss.upper(), "http": iss.replace("https", "http"), "empty": "", "path": iss + "/x",
                 "fragment": iss + "#", "client": client.get_client_id()}[case["near"]]
        before = dict(ctx(client).state._db)
        out = attempt(rh.finalize_auth, client, given, dict(resp))
        if given == iss:
            check(out.ok, "the login's own response was refused: {!r}", out)
            return
        t.nontriv(case["near"])
        check(not out.ok, "response accepted for {!r} while the login was begun with {!r}", given, iss)
        eq(dict(ctx(client).state._db), before, "session store after a refused response")
