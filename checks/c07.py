"""C07: token, refresh and user info requests carry the login's own material."""
import base64
import json
from urllib.parse import unquote_plus

from hypothesis import strategies as st

from op import OP, TENANTS, World, client_conf, ctx, handler, services, single, query_of
from vt import attempt, check, eq, test

RULE = ("Case = two or three logins at two providers with generated codes, tokens, client ids/secrets, redirect URIs, endpoint URLs, authentication "
        "methods and user info transports, and an interleaving of finishing, refreshing (with or without scope and rotation) and user info; every "
        "HTTP request is decoded with the standard library and compared. Non-trivial: at least one refresh or user info call after two logins were "
        "finished, or a value that needs escaping.")
ASSUMPTIONS = ["access tokens are of the token68 alphabet (anything else cannot be in an Authorization header)"]

TXT = st.text(st.characters(blacklist_categories=("Cs",)), max_size=8)
VS = st.text(st.characters(min_codepoint=0x20, max_codepoint=0x7e), max_size=10)
T68 = st.text(st.sampled_from("abcXYZ019-._~+/="), max_size=8)
METHODS = ["client_secret_basic", "client_secret_post", "private_key_jwt", "client_secret_jwt"]
OPS = st.one_of(
    st.tuples(st.just("finish"), st.integers(0, 2)), st.tuples(st.just("finish"), st.integers(0, 2)),
    st.tuples(st.just("refresh"), st.integers(0, 2), st.sampled_from([None, "openid", ["openid", "email"], "openid a+b c%d", ["\u00e5"]]), st.booleans()),
    st.tuples(st.just("refresh"), st.integers(0, 2), st.none(), st.booleans()),
    st.tuples(st.just("userinfo"), st.integers(0, 2), st.sampled_from([True, False, "service", "service"])),
)
CB = ["https://rp.example.com/cb", "https://rp.example.com/cb?x=1&y=a%20b", "https://rp.example.com/cb;p=1/\u00e9", "com.example.app:/cb"]


@st.composite
def cases(draw):
    return {"tenants": draw(st.sampled_from(TENANTS)), "rt": draw(st.sampled_from(["code", "code", "code id_token", "code token", "id_token token", "code id_token token"])),
            "collect": draw(st.booleans()),
            # logins whose response type is not the first of the client's
            "rts": draw(st.one_of(st.just([None] * 3), st.lists(st.sampled_from([None, "code", "code id_token", "code token", "id_token token", "code id_token token"]), min_size=3, max_size=3))),
            "method": [draw(st.sampled_from(METHODS)), draw(st.sampled_from(METHODS + ["list"]))],
            "dyn": draw(st.booleans()),
            "code": draw(st.one_of(VS, TXT)), "rtok": draw(st.one_of(VS, TXT)), "at": draw(T68),
            "cid": draw(st.one_of(st.just("client"), VS.filter(bool), TXT.filter(bool))),
            "secret": draw(st.one_of(st.just(""), VS, TXT)), "query": draw(st.sampled_from(["", "", "?tenant=a", "?tenant=a%26b&y=&z=1&z=2"])),
            "cb": draw(st.sampled_from(CB)), "cbs": draw(st.booleans()), "req_cb": draw(st.sampled_from([None, None] + CB[:2])),
            "ui": draw(st.sampled_from(["get", "get", "post_header", "post_body"])), "refresh": draw(st.booleans()), "life": draw(st.sampled_from([[3600], [3600], [7200, 3600, 600, 60], [None, 600], [60, None, 3600]])),
            "places": draw(st.sampled_from([{}, {}, {"token_endpoint": "https://tok.example.net"}, {"userinfo_endpoint": "https://ui.example.net:8443"}])),
            "who": [draw(st.integers(0, 1)) for _ in range(3)],
            "ops": draw(st.sampled_from([[], [["finish", 0]], [["finish", 0], ["finish", 1]], [["finish", 2], ["finish", 0]]])) + draw(st.lists(OPS, min_size=2, max_size=12))}


@test(cases(), quick=4000, thorough=50000)
def requests_of_a_login(case, t):
    with World() as w:
        ops = [OP(w, 0, endpoint_query=case["query"], places=case["places"], tenant=case["tenants"][0]), OP(w, 1, tenant=case["tenants"][1])]
        srv = services()
        if case["ui"] != "get":
            srv["userinfo"]["kwargs"] = {"conf": {"http_method": "POST", "default_authn_method": "bearer_header" if case["ui"] == "post_header" else "bearer_body"}}
        confs = {}
        for o in ops:
            o.suffix, o.code_suffix, o.rt_suffix = case["at"], case["code"], case["rtok"]
            more = [x for x in case.get("rts") or [] if x and x != case["rt"]]
            c = client_conf(o, [case["rt"]] + sorted(set(more)), dynamic=case["dyn"], client_id=case["cid"] + "-%d" % o.i, secret=("0123456789abcdef" * 2) + case["secret"] + str(o.i))
            m = case["method"][o.i]
            m = ["client_secret_post", "client_secret_basic"] if m == "list" else m
            c["client_preferences" if case["dyn"] else "behaviour"]["token_endpoint_auth_method"] = m
            if not case["dyn"]:
                c["redirect_uris"] = [case["cb"]] + (["https://rp.example.com/other"] if case["cbs"] else [])
                o.clients[c["client_id"]] = c["client_secret"]
            confs[o.issuer] = c
        rh = handler(confs, services=srv)
        logins = []
        for n, i in enumerate(case["who"]):
            o = ops[i]
            req_args = {"redirect_uri": case["req_cb"]} if case["req_cb"] else None
            own_rt = (case.get("rts") or [None] * 3)[n]
            if own_rt:
                req_args = dict(req_args or {}, response_type=own_rt)
            o.expires_in = case["life"][0]
            r = rh.begin(o.issuer, req_args=req_args)
            m = single(query_of(r["url"]))
            lg, resp = o.authorize_params(m, sub="u%d" % len(logins))
            logins.append({"o": o, "state": r["state"], "lg": lg, "resp": resp, "req": m, "done": False, "rt": None, "flow": own_rt or case["rt"], "at": None, "calls": 0})
            if case["req_cb"]:
                eq(m["redirect_uri"], case["req_cb"], "redirect URI of the authorization request")
            elif not case["dyn"] and logins[-1]["flow"] == "code":
                eq(m["redirect_uri"], case["cb"], "redirect URI of the authorization request")

        def check_auth(o, req, form):
            c = ctx(rh.issuer2rp[o.issuer])
            m = case["method"][o.i]
            m = "client_secret_post" if m == "list" else m
            cid, sec = c.client_id, o.clients[c.client_id]
            auth = req.headers.get("Authorization")
            if m == "client_secret_basic":
                check(auth and auth.startswith("Basic "), "no basic authentication but {!r}", auth)
                u, _, p = base64.b64decode(auth[6:], validate=True).decode().partition(":")
                eq((unquote_plus(u), unquote_plus(p)), (cid, sec), "credentials sent")
                check("client_secret" not in form, "client secret in the body too")
            else:
                check(auth is None, "unexpected Authorization header {!r}", auth)
                if m == "client_secret_post":
                    eq((form.get("client_id"), form.get("client_secret")), (cid, sec), "credentials sent")
                else:
                    check("client_secret" not in form, "client secret sent with {}", m)
                    eq(form.get("client_assertion_type"), "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion type")
                    a = form["client_assertion"].split(".")
                    pl = json.loads(base64.urlsafe_b64decode(a[1] + "=="))
                    eq((pl["iss"], pl["sub"]), (cid, cid), "assertion issuer and subject")

        def post_form(req, url, what):
            eq((req.method, req.url), ("POST", url), what)
            eq(req.headers.get("Content-Type", "").split(";")[0], "application/x-www-form-urlencoded", what + " content type")
            form = single(req.form)
            check(all(isinstance(v, str) for v in form.values()), "{} has repeated parameters: {}", what, req.form)
            return form

        def check_userinfo(o, req, at):
            url = o.ep("userinfo_endpoint")
            if case["ui"] == "get":
                eq((req.method, req.url, req.body), ("GET", url, ""), "user info request")
                eq(req.headers.get("Authorization"), "Bearer " + at, "token in the user info request")
            else:
                form = post_form(req, url, "user info request")
                if case["ui"] == "post_header":
                    eq((req.headers.get("Authorization"), form), ("Bearer " + at, {}), "token in the user info request")
                else:
                    eq((req.headers.get("Authorization"), form), (None, {"access_token": at}), "token in the user info request")
        special = any(ch not in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-" for ch in case["code"] + case["rtok"] + case["cid"] + case["secret"])
        n_fin = later = 0
        # tokens can be collected from the token endpoint although the redirect brought an access token
        for step in case["ops"]:
            L = logins[step[1]]
            o, lg = L["o"], L["lg"]
            collect = bool(case.get("collect")) and "code" in L["flow"]
            redeems = L["flow"] in ("code", "code id_token") or collect
            mark = len(w.log)
            L["calls"] += 1
            o.expires_in = case["life"][L["calls"] % len(case["life"])]
            if step[0] == "finish":
                if L["done"]:
                    continue
                o.give_refresh = case["refresh"]
                out = attempt(rh.finalize, o.issuer, L["resp"], behaviour_args={"collect_tokens": True} if collect else None)
                check(out.ok and "error" not in out.value, "login failed: {!r}", out)
                L["done"] = True
                n_fin += 1
                sent = w.since(mark)
                if redeems:
                    req = sent.pop(0)
                    form = post_form(req, o.ep("token_endpoint"), "token request")
                    eq((form.get("grant_type"), form.get("code"), form.get("redirect_uri")), ("authorization_code", lg.code, L["req"]["redirect_uri"]), "token request")
                    check(set(form) <= {"grant_type", "code", "redirect_uri", "client_id", "client_secret", "client_assertion", "client_assertion_type", "state"},
                          "token request has unexpected parameters {}", sorted(form))
                    eq(form.get("state", L["state"]), L["state"], "state in the token request")
                    check_auth(o, req, form)
                    L["rt"] = lg.rts[-1] if lg.rts else None
                L["at"] = lg.ats[-1] if lg.ats else None
                check(len(sent) == 1, "expected one user info request, got {!r}", sent)
                check_userinfo(o, sent[0], out.value["token"])
                eq(out.value["token"], L["at"], "token of the result")
            elif step[0] == "refresh":
                if not L["done"]:
                    continue
                o.rotate = step[3]
                out = attempt(rh.refresh_access_token, L["state"], scope=step[2]) if step[2] else attempt(rh.refresh_access_token, L["state"])
                if L["rt"] is None:
                    check(not out.ok, "refresh without refresh token: {!r}", out)
                    continue
                check(out.ok, "refresh failed: {!r} (rotated {})", out, step[3])
                later += 1
                sent = w.since(mark)
                check(len(sent) == 1, "refresh sent {!r}", sent)
                form = post_form(sent[0], o.ep("token_endpoint"), "refresh request")
                eq((form.get("grant_type"), form.get("refresh_token")), ("refresh_token", L["rt"]), "refresh request")
                if step[2]:
                    eq(form.get("scope"), step[2] if isinstance(step[2], str) else " ".join(step[2]), "scope of the refresh request")
                check(not set(form) & {"code", "redirect_uri", "access_token", "id_token", "nonce"}, "refresh request has {}", sorted(form))
                check_auth(o, sent[0], form)
                L["at"] = lg.ats[-1]
                if step[3]:
                    L["rt"] = lg.rts[-1]
                t.label("rotated" if step[3] else "not rotated")
            else:
                if not L["done"] or not L["at"]:
                    continue
                if step[2] == "service":
                    out = attempt(rh.issuer2rp[o.issuer].do_request, "userinfo", state=L["state"])
                else:
                    out = attempt(rh.get_user_info, L["state"]) if step[2] else attempt(rh.get_user_info, L["state"], access_token=L["at"])
                check(out.ok, "user info failed: {!r}", out)
                later += 1
                sent = w.since(mark)
                check(len(sent) == 1, "user info sent {!r}", sent)
                check_userinfo(o, sent[0], L["at"])
                eq(out.value["sub"], lg.sub, "user info")
        t.label("ui:" + case["ui"], *["method:" + m for m in case["method"]])
        if later and n_fin >= 2 or special and n_fin:
            t.nontriv("special" if special else "plain")
