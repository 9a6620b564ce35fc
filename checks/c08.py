"""C08: PKCE binds every token request to its own authorization request."""
import base64
import hashlib

from hypothesis import strategies as st

from op import OP, TENANTS, World, client_conf, handler, query_of, single
from vt import attempt, check, eq, test

RULE = ("Case = up to six logins at two providers with generated verifier lengths and challenge methods, finished (with retries and refreshes) in a "
        "generated order; the challenge is recomputed from the verifier of the token request. Non-trivial: at least two logins were redeemed, or the method is "
        "not the default.")
ASSUMPTIONS = []

HASH = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}
UNRESERVED = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
BAD = ["plain", "S1", "s256", "", "S224", "none", "sha256"]
SEEN = set()

LEN = st.one_of(st.sampled_from([43, 44, 64, 100, 127, 128]), st.integers(43, 128))


@st.composite
def cases(draw):
    return {"tenants": draw(st.sampled_from(TENANTS)), "len": [draw(LEN), draw(LEN)],
            "method": [draw(st.sampled_from(["S256", "S256", "S384", "S512"])), draw(st.sampled_from(["S256", "S384", "S512"] + BAD[:1] + [draw(st.sampled_from(BAD))]))],
            "rt": [draw(st.sampled_from(["code", "code", "code id_token", "code token", "code id_token token", "id_token"])), draw(st.sampled_from(["code", "code id_token"]))],
            "share": draw(st.booleans()), "dyn": draw(st.booleans()), "request": draw(st.sampled_from([None, None, None, "claims", "scope"])),
            "logins": draw(st.lists(st.integers(0, 1), min_size=1, max_size=6)),
            "order": draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(["finish", "finish", "finish", "refresh", "again", "direct"])), min_size=1, max_size=10))}


def challenge(verifier, method):
    return base64.urlsafe_b64encode(HASH[method](verifier.encode("ascii")).digest()).decode().rstrip("=")


@test(cases(), quick=4000, thorough=50000)
def pkce(case, t):
    with World() as w:
        ops = [OP(w, 0, tenant=case["tenants"][0]), OP(w, 1, tenant=case["tenants"][1])]
        add = {"function": "oidcrp.oauth2.add_on.pkce.add_support"}
        confs = {}
        for o in ops:
            i = 0 if case["share"] else o.i
            spec = {"pkce": dict(add, kwargs={"code_challenge_length": case["len"][i], "code_challenge_method": case["method"][i]})}
            confs[o.issuer] = client_conf(o, case["rt"][o.i], dynamic=case["dyn"], add_ons=spec)
        rh = handler(confs)
        logins = []
        for o in case["logins"]:
            op = ops[o]
            length, method = (case["len"][0], case["method"][0]) if case["share"] else (case["len"][o], case["method"][o])
            req_args = {"claims": {"claims": {"id_token": {"acr": None}}}, "scope": {"scope": ["openid", "email"]}}.get(case["request"])
            out = attempt(rh.begin, op.issuer, req_args=req_args)
            if method not in HASH:
                check(not out.ok, "challenge method {!r} accepted: {!r}", method, out)
                t.nontriv("refused:" + method)
                continue
            check(out.ok, "login could not be started: {!r}", out)
            r = out.value
            q = single(query_of(r["url"]))
            eq(q.get("code_challenge_method"), method, "challenge method stated")
            check(isinstance(q.get("code_challenge"), str), "challenge {!r}", q.get("code_challenge"))
            check("code_verifier" not in q, "verifier in the authorization request")
            lg, resp = op.authorize(r["url"])
            logins.append({"op": op, "r": r, "q": q, "lg": lg, "resp": resp, "length": length, "method": method, "verifier": None, "done": False})
        chal = [L["q"]["code_challenge"] for L in logins]
        eq(len(set(chal)), len(chal), "number of different challenges")

        def look(L, reqs):
            for req in reqs:
                form = single(req.form)
                if req.path != "/token" or form.get("grant_type") != "authorization_code":
                    check("code_verifier" not in req.body and "code_verifier" not in req.url, "verifier in a {} request", req.path)
                    continue
                v = form.get("code_verifier")
                check(isinstance(v, str), "verifier {!r}", v)
                check(set(v) <= UNRESERVED and len(v) == L["length"], "verifier {!r}, should have length {}", v, L["length"])
                eq(challenge(v, L["method"]), L["q"]["code_challenge"], "challenge from the verifier")
                check(v not in L["r"]["url"], "verifier disclosed in the authorization request")
                if L["verifier"] is None:
                    check(v not in SEEN, "verifier used before")
                    SEEN.add(v)
                    L["verifier"] = v
                eq(v, L["verifier"], "verifier at a repeated token request")
                return True
        n = 0
        for i, what in case["order"]:
            if not logins:
                break
            L = logins[i % len(logins)]
            op = L["op"]
            mark = len(w.log)
            if what == "finish" and not L["done"]:
                out = attempt(rh.finalize, op.issuer, dict(L["resp"]))
                check(out.ok and "error" not in out.value, "login failed: {!r}", out)
                L["done"] = True
                got = look(L, w.since(mark, op.netloc))
                if case["rt"][op.i] in ("code", "code id_token"):
                    check(got, "no token request")
                    n += 1
            elif not L["done"] or not L["lg"].rts:
                continue
            elif what == "refresh":
                rh.refresh_access_token(L["r"]["state"])
                look(L, w.since(mark, op.netloc))
            elif what == "again":
                rh.get_tokens(L["r"]["state"])
                check(look(L, w.since(mark, op.netloc)), "no token request")
            elif what == "direct":
                # the services used without the handler, state only as a keyword
                rh.issuer2rp[op.issuer].do_request("accesstoken", state=L["r"]["state"])
                check(look(L, w.since(mark, op.netloc)), "no token request")
            t.label("op:" + what)
        t.label("redeemed:%d" % n)
        if n >= 2 or any(L["method"] != "S256" for L in logins):
            t.nontriv(*["method:" + L["method"] for L in logins])


@st.composite
def single_cases(draw):
    return {"len": draw(st.one_of(st.integers(43, 128), st.integers(1, 300))), "method": draw(st.sampled_from(["S256", "S384", "S512"])),
            "n": draw(st.integers(1, 4))}


@test(single_cases(), quick=1500, thorough=20000)
def plain_oauth2_client(case, t):
    """The add-on with a plain OAuth2 client, no handler."""
    from oidcrp.oauth2 import Client
    with World() as w:
        op = OP(w, 0)
        conf = {"issuer": op.issuer, "client_id": "c", "client_secret": "s" * 32, "redirect_uris": ["https://rp.example.com/cb"],
                "behaviour": {"response_types": ["code"]}, "provider_info": op.metadata(),
                "add_ons": {"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                                     "kwargs": {"code_challenge_length": case["len"], "code_challenge_method": case["method"]}}}}
        cl = Client(config=conf)
        c = cl.client_get("service_context")
        c.provider_info = op.metadata()
        sess = []
        for _ in range(case["n"]):
            state = c.state.create_state(op.issuer)
            info = cl.client_get("service", "authorization").get_request_parameters(request_args={"state": state, "response_type": "code"})
            sess.append((state, single(query_of(info["url"]))))
        for state, q in reversed(sess):
            code = "code-" + state
            cl.client_get("service", "authorization").update_service_context({"code": code, "state": state}, key=state)
            info = cl.client_get("service", "accesstoken").get_request_parameters(request_args={"code": code, "state": state}, state=state)
            v = info["request"]["code_verifier"]
            check("code_verifier=" + v in info["body"], "verifier not sent")
            check(set(v) <= UNRESERVED and len(v) == case["len"], "verifier {!r}, should have length {}", v, case["len"])
            eq(challenge(v, case["method"]), q.get("code_challenge"), "challenge from the verifier")
            eq(q.get("code_challenge_method"), case["method"], "challenge method stated")
            check(case["len"] < 16 or v not in SEEN, "verifier used before")
            SEEN.add(v)
        if case["n"] > 1:
            t.nontriv("logins:%d" % case["n"])
