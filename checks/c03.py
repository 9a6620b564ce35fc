"""C03: concurrent logins at several providers never interfere."""
import json

from hypothesis import strategies as st

import world as W
from op import OP, TENANTS, RT, World, client_conf, ctx, handler, query_of, single
from vt import attempt, check, eq, test

RULE = ("Case = three providers (configured by issuer / by name / unknown in advance, reached by issuer or by user identifier, static or dynamic) and a "
        "history of up to 30 operations over many logins with colliding subjects and session ids; after every operation every login and every "
        "reverse look-up is compared with a model. Non-trivial: at least two logins were open at the same time and two were completed, or one cleared.")
ASSUMPTIONS = ["every login is completed successfully at most once"]

OPS = st.one_of(
    st.tuples(st.just("begin"), st.integers(0, 2), st.integers(0, 1)),
    st.tuples(st.just("begin"), st.integers(0, 2), st.integers(0, 1)),
    st.tuples(st.just("finish"), st.integers(0, 7), st.sampled_from(["alice", "bob", "c \u00e9"]), st.sampled_from([None, "s1", "s2"])),
    st.tuples(st.just("finish"), st.integers(0, 7), st.sampled_from(["alice", "bob", "c \u00e9"]), st.sampled_from([None, "s1", "s2"])),
    st.tuples(st.just("error"), st.integers(0, 7)),
    st.tuples(st.just("bad"), st.integers(0, 7), st.integers(0, 7)),
    st.tuples(st.just("refresh"), st.integers(0, 7), st.booleans(), st.booleans()),
    st.tuples(st.just("userinfo"), st.integers(0, 7)),
    st.tuples(st.just("logout"), st.integers(0, 7), st.sampled_from(["logout", "close", "close_iss"])),
    st.tuples(st.just("clear"), st.integers(0, 7)),
)
BEGIN = st.tuples(st.just("begin"), st.integers(0, 2), st.integers(0, 1))
# always a few logins under way, the rest is arbitrary; two sizes so that long histories are common
HISTORY = st.tuples(st.lists(BEGIN, min_size=2, max_size=4), st.one_of(st.lists(OPS, min_size=2, max_size=8), st.lists(OPS, min_size=10, max_size=26))).map(
    lambda x: x[0] + x[1])


@st.composite
def cases(draw):
    return {"tenants": draw(st.sampled_from(TENANTS)), "rt": [draw(st.sampled_from(RT)) for _ in range(3)],
            "dyn": draw(st.booleans()), "slash": draw(st.booleans()), "sid_support": draw(st.sampled_from([None, "backchannel", "frontchannel"])),
            "rotate": draw(st.booleans()), "same_redirect": draw(st.booleans()),
            "ops": draw(HISTORY)}


def d(x):
    return json.loads(x) if isinstance(x, str) else x


class Model:
    """One login as it should be."""

    def __init__(self, op, state, url):
        self.op, self.state = op, state
        self.req = single(query_of(url))
        self.done = self.cleared = False
        self.lg = None
        self.parts = {}
        self.logout_states = []


@test(cases(), quick=4000, thorough=60000)
def interleaved_logins(case, t):
    with World() as w:
        ops = [OP(w, 0, tenant=case["tenants"][0]), OP(w, 1, tenant=case["tenants"][1]), OP(w, 2, issuer="https://op2.example.org" + ("/" if case["slash"] else ""))]
        for o in ops:
            o.rotate = case["rotate"]
            if case["sid_support"]:
                o.meta["%s_logout_supported" % case["sid_support"]] = True
                o.meta["%s_logout_session_supported" % case["sid_support"]] = True
        confs = {ops[0].issuer: client_conf(ops[0], case["rt"][0]),
                 "named": client_conf(ops[1], case["rt"][1], dynamic=case["dyn"]),
                 "": {k: v for k, v in client_conf(ops[2], case["rt"][2], dynamic=True).items() if k != "issuer"}}
        if case["same_redirect"] and not case["dyn"]:
            confs["named"]["redirect_uris"] = confs[ops[0].issuer]["redirect_uris"] = ["https://rp.example.com/cb"]
        rh = handler(confs)
        orig2 = ops[2].handle

        def op2_handle(req):
            if req.path == "/.well-known/webfinger":
                return W.response(200, {"subject": "x", "links": [{"rel": "http://openid.net/specs/connect/1.0/issuer", "href": ops[2].issuer}]})
            return orig2(req)
        w.serve(ops[2].netloc, op2_handle)
        logins, refs = [], {}     # refs: (op, type, value) -> Model
        clients = {}

        def pick(i):
            return logins[i % len(logins)] if logins else None

        n_open = n_done = n_clear = 0
        for step in case["ops"]:
            what = step[0]
            t.label("op:" + what)
            if what == "begin":
                o = ops[step[1]]
                if step[1] == 0:
                    r = rh.begin(o.issuer)
                elif step[1] == 1:
                    r = rh.begin("named")
                elif step[2]:
                    r = rh.begin(user_id="acct:u%d@op2.example.org" % len(logins))
                else:
                    r = rh.begin(o.issuer if len(logins) % 2 else "https://op2.example.org")
                m = Model(o, r["state"], r["url"])
                check(all(x.state != m.state for x in logins), "state used twice")
                logins.append(m)
                if "nonce" in m.req:
                    refs[(o, "nonce", m.req["nonce"])] = m
                n_open = max(n_open, sum(1 for x in logins if not x.cleared))
            else:
                m = pick(step[1])
                if m is None:
                    continue
                o = m.op
                if what == "finish":
                    if m.done:
                        continue
                    lg, resp = o.authorize_params(m.req, sub=step[2], sid=step[3])
                    mark = len(w.log)
                    out = attempt(rh.finalize, o.issuer, dict(resp))
                    if m.cleared:
                        check(not out.ok, "a cleared login was completed: {!r}", out)
                        eq(len(w.log), mark, "requests for a cleared login")
                        continue
                    check(out.ok, "login failed: {!r}", out)
                    check("error" not in out.value, "login failed: {!r}", out)
                    eq(out.value["state"], m.state, "state of the result")
                    m.done, m.lg = True, lg
                    n_done += 1
                    rts = lg.rt.split(" ")
                    m.parts["auth_response"] = {k: resp[k] for k in ("code", "access_token", "id_token") if k in resp}
                    if rts in (["code"], ["code", "id_token"]):
                        m.parts["token_response"] = {"access_token": lg.ats[-1], "refresh_token": lg.rts[-1], "id_token": lg.id_tokens[-1][0]}
                    if lg.ats:
                        m.parts["user_info"] = {"sub": lg.sub, "via": lg.ats[-1]}
                    sent = [r for r in w.since(mark) if r.path == "/token"]
                    eq([r.params().get("code") for r in sent], [lg.code] if "token_response" in m.parts else [], "codes redeemed")
                    check(all(r.netloc == o.netloc for r in w.since(mark)), "requests to another provider")
                    eq(out.value["token"], lg.ats[-1] if lg.ats else None, "token of the result")
                    eq(dict(out.value["userinfo"]).get("sub"), lg.sub, "user of the result")
                    refs[(o, "sub", lg.sub)] = m
                    if step[3] and case["sid_support"] and out.value["id_token"] is not None:
                        refs[(o, "sid", step[3])] = m
                elif what == "error":
                    before = dict(ctx(rh.issuer2rp[o.issuer]).state._db)
                    out = attempt(rh.finalize, o.issuer, {"state": m.state, "error": "access_denied"})
                    check(not out.ok or "error" in out.value, "error response completed a login")
                    eq(dict(ctx(rh.issuer2rp[o.issuer]).state._db), before, "store after an error response")
                elif what == "bad":
                    # the response of a login at another provider is presented for this provider
                    x = pick(step[2])
                    if x.op is o or x.done:
                        continue
                    _, resp = x.op.authorize_params(x.req, sub="mallory")
                    check(not attempt(rh.finalize, o.issuer, dict(resp)).ok, "response from another provider accepted")
                elif what == "refresh":
                    if not m.done:
                        continue
                    o.refresh_idt, o.rotate = step[2], step[3]
                    cur = m.parts.get("refresh_token_response", {}).get("refresh_token") or m.parts.get("token_response", {}).get("refresh_token")
                    mark = len(w.log)
                    out = attempt(rh.refresh_access_token, m.state)
                    if m.cleared or not cur:
                        check(not out.ok, "refresh without a refresh token: {!r}", out)
                        continue
                    check(out.ok, "refresh failed: {!r}", out)
                    sent = w.since(mark)
                    eq([(r.netloc, r.params().get("refresh_token")) for r in sent], [(o.netloc, cur)], "refresh token sent")
                    new = {"access_token": m.lg.ats[-1], "refresh_token": m.lg.rts[-1] if step[3] else cur}
                    if step[2]:
                        new["id_token"] = m.lg.id_tokens[-1][0]
                    elif "id_token" in m.parts.get("refresh_token_response", {}):
                        new["id_token"] = m.parts["refresh_token_response"]["id_token"]
                    eq(out.value["access_token"], new["access_token"], "refreshed token")
                    m.parts["refresh_token_response"] = new
                elif what == "userinfo":
                    if not m.done:
                        continue
                    mark = len(w.log)
                    out = attempt(rh.get_user_info, m.state)
                    if m.cleared or not m.lg.ats:
                        check(not out.ok, "user info without token or session: {!r}", out)
                        continue
                    check(out.ok, "user info failed: {!r}", out)
                    eq(out.value["sub"], m.lg.sub, "user info subject")
                    eq(out.value["via"], m.lg.ats[-1], "access token used for user info")
                    check(all(r.netloc == o.netloc for r in w.since(mark)), "user info request to another provider")
                    m.parts["user_info"] = {"sub": m.lg.sub, "via": m.lg.ats[-1]}
                elif what == "logout":
                    if not m.done:
                        continue
                    if m.cleared:
                        check(not attempt(rh.logout, m.state).ok, "logout of a cleared login")
                        continue
                    r = rh.logout(m.state) if step[2] == "logout" else rh.close(m.state, issuer=o.issuer if step[2] == "close_iss" else "")
                    q = single(query_of(r["url"]))
                    check(r["url"].startswith(o.base + "/logout"), "logout sent to {}", r["url"])
                    check(q["state"] not in [s for x in logins for s in x.logout_states + [x.state]], "logout state is not fresh")
                    m.logout_states.append(q["state"])
                    refs[(o, "logout", q["state"])] = m
                    last = None
                    for p in ("auth_response", "token_response", "refresh_token_response"):
                        last = m.parts.get(p, {}).get("id_token") or last
                    eq(q.get("id_token_hint"), last, "ID Token hint")
                elif what == "clear":
                    if m.cleared:
                        check(not attempt(rh.clear_session, m.state).ok, "cleared twice")
                        continue
                    rh.clear_session(m.state)
                    m.cleared = True
                    n_clear += 1
                    refs = {k: v for k, v in refs.items() if v is not m}
            # -- compare with the model ---------------------------------------
            for o in ops:
                if any(x.op is o for x in logins):
                    c = rh.issuer2rp[o.issuer]
                    check(clients.setdefault(o.issuer, c) is c, "the client for {} was replaced", o.issuer)
            for m in logins:
                if m.cleared:
                    check(not attempt(rh.get_session_information, m.state).ok, "cleared login can still be read")
                    check(rh.state2issuer(m.state) is None, "cleared login still has an issuer")
                    continue
                eq(rh.state2issuer(m.state), m.op.issuer, "issuer of the login")
                check(rh.get_client_from_session_key(m.state) is clients[m.op.issuer], "wrong client for a login")
                info = rh.get_session_information(m.state).to_dict()
                eq(info["iss"], m.op.issuer, "issuer stored")
                areq = d(info["auth_request"])
                for k in ("nonce", "state", "redirect_uri", "client_id"):
                    eq(areq.get(k), m.req.get(k), "stored request " + k)
                for part in ("auth_response", "token_response", "refresh_token_response", "user_info"):
                    have = d(info.get(part))
                    want = m.parts.get(part)
                    if want is None:
                        check(have is None or part == "auth_response" and not m.done, "{} is {} for a login that did not get one", part, have)
                        check(not have, "{} stored for a login without one", part)
                    else:
                        check(have is not None, "{} lost", part)
                        keys = ("code", "access_token", "id_token", "refresh_token") if part != "user_info" else ("sub", "via")
                        have = {k: have[k] for k in keys if k in have}
                        if part == "refresh_token_response":   # what the refresh did not return may be kept in the earlier response only
                            have = dict({k: v for k, v in want.items() if k in ("refresh_token", "id_token")}, **have)
                        eq(have, want, "{} of a login".format(part))
                if m.done:
                    active = bool(m.lg.id_tokens)
                    eq(bool(rh.has_active_authentication(m.state)), active, "active authentication")
                    tok = attempt(rh.get_valid_access_token, m.state)
                    eq(tok.ok, bool(m.lg.ats), "has valid access token")
                    if tok.ok:
                        check(tok.value[0] in m.lg.ats, "valid access token {} belongs to another login", tok.value[0])
            for o in ops:
                if o.issuer not in clients:
                    continue
                si = ctx(clients[o.issuer]).state
                for typ, get, vals in (("sub", si.get_state_by_sub, ["alice", "bob", "c \u00e9", "mallory"]), ("sid", si.get_state_by_sid, ["s1", "s2"]),
                                       ("nonce", si.get_state_by_nonce, [x.req["nonce"] for x in logins if "nonce" in x.req]),
                                       ("logout", si.get_state_by_logout_state, [s for x in logins for s in x.logout_states])):
                    for v in vals:
                        out = attempt(get, v)
                        want = refs.get((o, typ, v))
                        if want is None:
                            check(not out.ok, "{} {} is not bound at {} but gives {!r}", typ, v, o.issuer, out)
                        else:
                            check(out.ok, "{} {} lost", typ, v)
                            eq(out.value, want.state, "login for {} {}".format(typ, v))
        if n_open >= 2 and (n_done >= 2 or n_clear):
            t.nontriv("cleared" if n_clear else "-")
        t.label("logins:%d" % min(len(logins), 8), "done:%d" % min(n_done, 6))
