"""C15: Dynamic registration announces and adopts exactly the client's facts."""
import base64
import copy
import json
from urllib.parse import unquote_plus, urlsplit

from hypothesis import strategies as st

import world as W
from op import OP, World, client_conf, ctx, handler, query_of, response, services, single
from vt import attempt, check, eq, test

RULE = ("Case = client metadata (preferences, configured values, arguments given at registration), keys by value, by reference or none, response types, handler with or without seed, two or three providers, and a sequence of "
        "registration responses (good ones with changed id/secret/expiry/management token, refusals, malformed ones). Oracle: reference computation of the announced metadata; the credentials seen in later token, "
        "read-registration and authorization requests are the latest returned ones. Non-trivial: several providers or more than one registration or configured callback URIs.")
ASSUMPTIONS = ["a response without a required member (client_id, redirect_uris) or with only one of registration_client_uri and registration_access_token is malformed"]

RTS = ["code", "id_token", "id_token token", "code id_token", "code token", "code id_token token"]
IMPLIES = {"code": {"authorization_code"}, "id_token": {"implicit"}, "id_token token": {"implicit"}}
META = {
    "application_type": st.sampled_from(["web", "native"]), "contacts": st.lists(st.sampled_from(["ops@example.com", "a@b.c", "ö@x.y"]), min_size=1, max_size=2, unique=True),
    "client_name": st.text(min_size=1, max_size=12), "logo_uri": st.just("https://rp.example.com/logo.png"), "client_uri": st.just("https://rp.example.com/?a=b&c"),
    "policy_uri": st.just("https://rp.example.com/p"), "tos_uri": st.just("https://rp.example.com/tos"), "sector_identifier_uri": st.just("https://rp.example.com/sector"),
    "subject_type": st.sampled_from(["public", "pairwise"]), "default_max_age": st.integers(1, 10 ** 6), "require_auth_time": st.just(True),
    "initiate_login_uri": st.just("https://rp.example.com/init"), "backchannel_logout_uri": st.just("https://rp.example.com/my_bc"), "frontchannel_logout_uri": st.just("https://rp.example.com/my_fc"),
    "request_uris": st.just(["https://rp.example.com/requests"]), "userinfo_signed_response_alg": st.sampled_from(["RS256", "ES256"]),
    "id_token_signed_response_alg": st.sampled_from(["RS256", "ES256"]), "token_endpoint_auth_method": st.sampled_from(["client_secret_basic", "client_secret_post"]),
    "grant_types": st.lists(st.sampled_from(["authorization_code", "implicit", "refresh_token"]), min_size=1, max_size=3, unique=True),
}
# where a piece of metadata may be given
PREF_ONLY = {"token_endpoint_auth_method", "grant_types"}
URI = ["backchannel_logout_uri", "frontchannel_logout_uri", "request_uris"]
TOK = st.text("abcdefghijkABCD0123456789-._~+/=", min_size=1, max_size=20)
SECRET = st.text(st.characters(min_codepoint=33, max_codepoint=0x17f), min_size=16, max_size=40)


@st.composite
def replies(draw):
    kind = draw(st.sampled_from(["ok"] * 9 + ["err", "err200", "nocid", "nored", "rat only", "uri only", "junk", "401", "302", "empty", "cid type", "list"]))
    return {"kind": kind, "cid": draw(TOK), "secret": draw(st.one_of(SECRET, SECRET, SECRET, st.none())), "exp": draw(st.sampled_from([0, 4102444800, 4102444801])),
            "rat": draw(st.one_of(st.none(), TOK)), "q": draw(st.sampled_from(["", "?client_id=x", "/a%20b"])), "status": draw(st.sampled_from([200, 201]))}


@st.composite
def cases(draw):
    prefs, conf, args = {}, {}, {}
    for name in draw(st.lists(st.sampled_from(sorted(META)), max_size=6, unique=True)):
        v = draw(META[name])
        where = "prefs" if name in PREF_ONLY else draw(st.sampled_from(["prefs", "conf", "args"]))
        {"prefs": prefs, "conf": conf, "args": args}[where][name] = v
        if where == "args" and name not in URI and draw(st.booleans()):
            prefs[name] = draw(META[name])             # the caller's value wins
        elif where == "prefs" and name not in PREF_ONLY and draw(st.integers(0, 3)) == 0:
            conf[name] = draw(META[name])               # the preference wins
    rts = draw(st.lists(st.sampled_from(RTS), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 7)) == 0:
        rts = None
    red = draw(st.sampled_from([None, None, None, None, "conf", "prefs", "args"]))
    for n in ("form_post_usable", "request_uri_usable", "backchannel_logout_usable", "frontchannel_logout_usable"):
        if draw(st.integers(0, 2)) == 0:
            (prefs if draw(st.booleans()) else conf)[n] = draw(st.sampled_from([True, True, False]))
    return {"prefs": prefs, "conf": conf, "args": args, "rts": rts, "red": red, "plo": draw(st.sampled_from([None, None, "https://rp.example.com/bye"])),
            "keys": draw(st.sampled_from(["handler", "handler", "uri", "conf uri", "conf jwks", "none", "both", "args"])),
            "base": draw(st.sampled_from(["https://rp.example.com", "https://rp.example.com/sub/rp"])), "seed": draw(st.sampled_from(["s1", "another seed", b"bytes"])),
            "nops": draw(st.integers(1, 3)), "tenants": draw(st.sampled_from([["", "", ""], ["", "", ""], ["", "/a", "/b"], ["/a", "/a/b", "/b"], ["/A", "/a", ""], ["/t/1", "/t/2", ""], ["/t", "/t2", "/t/2"]])), "support": draw(st.lists(st.sampled_from(["backchannel_logout_supported", "frontchannel_logout_supported", "require_request_uri_registration"]), max_size=3, unique=True)),
            "replies": draw(st.lists(replies(), min_size=1, max_size=4)), "via": draw(st.sampled_from(["begin", "setup"])), "mymethod": draw(st.sampled_from(["client_secret_basic", "client_secret_post"]))}


def setting(case, attr):
    """A usable-flag is stated"""
    return case["prefs"].get(attr) is True or case["conf"].get(attr) is True


def make_handler(case, ops, seed):
    confs = {}
    for op in ops:
        c = {"issuer": op.issuer, "client_preferences": copy.deepcopy(case["prefs"])}
        if case["rts"]:
            c["client_preferences"]["response_types"] = list(case["rts"])
        c["client_preferences"].setdefault("token_endpoint_auth_method", case["mymethod"])
        c.update(copy.deepcopy(case["conf"]))
        if case["red"] == "conf":
            c["redirect_uris"] = ["https://rp.example.com/fixed", "https://rp.example.com/fixed2"]
        elif case["red"] == "prefs":
            c["client_preferences"]["redirect_uris"] = ["https://rp.example.com/pref"]
        if case["plo"]:
            c["post_logout_redirect_uris"] = [case["plo"]]
        if case["keys"] in ("conf uri", "both"):
            c["jwks_uri"] = "https://rp.example.com/static/jwks"
        if case["keys"] in ("conf jwks", "both"):
            c["jwks"] = W.public_jwks("rp_ec384")
        confs[op.issuer] = c
    kw = {}
    if case["keys"] in ("uri",):
        kw["jwks_path"] = "static/jwks.json"
    if case["keys"] in ("none", "conf uri", "conf jwks", "both"):
        from cryptojwt.key_jar import KeyJar
        kw["keyjar"] = KeyJar()
        if case["keys"] == "none":
            kw["keyjar"].add_symmetric("", "very secret thing of the client")
    srv = services()
    srv["registration_read"] = {"class": "oidcrp.oidc.read_registration.RegistrationRead"}
    return handler(confs, base_url=case["base"], hash_seed=seed, services=srv, **kw)


def public_thumbs(jwks):
    res = set()
    for k in jwks["keys"]:
        check(not set(k) & {"d", "p", "q", "dp", "dq", "qi", "k", "oth"}, "announced private or secret key material: {}", sorted(k))
        res.add((k["kty"], k.get("n") or k.get("x")))
    return res


def announced(case, body, op, callbacks_of):
    """Compare a registration request with the reference"""
    args = case["args"]
    want = {}
    for src in (case["conf"], case["prefs"], args):
        for k, v in src.items():
            if k in META and k != "grant_types":
                want[k] = v
    want.setdefault("application_type", "web")
    want.setdefault("token_endpoint_auth_method", case["mymethod"])
    want["response_types"] = case["rts"] or ["code"]
    for k, v in want.items():
        eq(body.get(k), v, "announced " + k)
    gts = set()
    for rt in want["response_types"]:
        gts |= IMPLIES.get(rt, {"authorization_code", "implicit"})
    gts |= set(case["prefs"].get("grant_types", []))
    eq(set(body.get("grant_types", [])), gts, "announced grant types")
    eq(len(body["grant_types"]), len(gts), "number of grant types")
    # keys
    check(not ("jwks" in body and "jwks_uri" in body), "both jwks and jwks_uri announced")
    k = case["keys"]
    if k == "uri":
        eq(body.get("jwks_uri"), case["base"] + "/static/jwks.json", "jwks_uri")
    elif k in ("conf uri", "both"):
        eq(body.get("jwks_uri"), "https://rp.example.com/static/jwks", "jwks_uri")
    elif k == "conf jwks":
        eq(public_thumbs(body.get("jwks") or {"keys": []}), public_thumbs(W.public_jwks("rp_ec384")), "announced keys")
    elif k == "handler":
        eq(public_thumbs(body.get("jwks") or {"keys": []}), public_thumbs(W.public_jwks("rp_rsa", "rp_ec256")), "announced keys")
    elif k == "args":
        eq(body.get("jwks_uri"), "https://rp.example.com/argkeys", "jwks_uri")
    else:
        eq((body.get("jwks"), body.get("jwks_uri")), (None, None), "keys of a client without public keys")
    # callbacks
    cb = body.get("redirect_uris")
    mine = {}
    if case["red"]:
        eq(cb, {"conf": ["https://rp.example.com/fixed", "https://rp.example.com/fixed2"], "prefs": ["https://rp.example.com/pref"], "args": ["https://rp.example.com/arg"]}[case["red"]], "redirect_uris")
    else:
        kinds = []
        if "code" in want["response_types"]:
            kinds.append("code")
        if set(want["response_types"]) - {"code"}:
            kinds.append("implicit")
        if setting(case, "form_post_usable"):
            kinds.append("form_post")
        eq(len(cb or []), len(kinds), "number of redirect URIs {} for {}".format(cb, kinds))
        eq(len(set(cb)), len(cb), "different redirect URIs")
        for n, u in enumerate(sorted(cb)):
            mine["redirect%d" % n] = u
    exp = {"request_uris": "request_uris" in want or ("require_request_uri_registration" in case["support"] and setting(case, "request_uri_usable")),
           "backchannel_logout_uri": "backchannel_logout_uri" in want or ("backchannel_logout_supported" in case["support"] and setting(case, "backchannel_logout_usable")),
           "frontchannel_logout_uri": "frontchannel_logout_uri" in want or ("frontchannel_logout_supported" in case["support"] and setting(case, "frontchannel_logout_usable"))}
    if setting(case, "request_uri_usable") and not exp["request_uris"]:
        exp["request_uris"] = "request_uris" in body       # allowed, the standard's default is that registration isn't required
    for name, there in exp.items():
        eq(name in body, there, "{} announced".format(name))
        if there and name not in want:
            mine[name] = body[name][0] if isinstance(body[name], list) else body[name]
    if case["plo"]:
        eq(body.get("post_logout_redirect_uris"), [case["plo"]], "post_logout_redirect_uris")
    elif "post_logout_redirect_uris" in body:
        mine["plo"] = body["post_logout_redirect_uris"][0]
    for name, u in mine.items():
        check(u.startswith(case["base"] + "/"), "callback {} {} isn't below the base URL", name, u)
    eq(len(set(mine.values())), len(mine), "different callback URIs {}".format(mine))
    for other, theirs in callbacks_of.items():
        both = set(theirs.values()) & set(mine.values())
        if other == op.issuer:
            eq(mine, theirs, "callback URIs for the same provider")
        else:
            check(not both, "callback URIs {} are used for {} and {}", both, other, op.issuer)
    callbacks_of[op.issuer] = mine
    extra = set(body) - set(want) - {"grant_types", "jwks", "jwks_uri", "redirect_uris", "post_logout_redirect_uris"} - set(exp)
    eq(extra, set(), "metadata that's not the client's")
    return cb


def reply(r, req):
    body = json.loads(req.body)
    res = dict(body, client_id=r["cid"])
    if r["secret"] is not None:
        res["client_secret"], res["client_secret_expires_at"] = r["secret"], r["exp"]
    if r["rat"]:
        res["registration_access_token"], res["registration_client_uri"] = r["rat"], "https://%s/reg/manage%s" % (req.netloc, r["q"])
    k = r["kind"]
    if k == "err":
        return response(400, {"error": "invalid_client_metadata", "client_id": "x"})
    if k == "err200":
        return response(200, dict(res, error="invalid_redirect_uri"))
    if k == "nocid":
        del res["client_id"]
    if k == "nored":
        del res["redirect_uris"]
    if k == "rat only":
        res["registration_access_token"] = "t"
        res.pop("registration_client_uri", None)
    if k == "uri only":
        res["registration_client_uri"] = "https://x.y/z"
        res.pop("registration_access_token", None)
    if k == "junk":
        return response(201, "{" + json.dumps(res))
    if k == "empty":
        return response(201, "")
    if k == "401":
        return response(401, res)
    if k == "302":
        return response(302, res, headers={"Location": "https://evil.example.org/"})
    if k == "cid type":
        res["client_id"] = {"a": "b"}
    if k == "list":
        return response(201, [res])
    return response(r["status"], res)


def facts(c):
    x = ctx(c)
    return (x.client_id, x.client_secret, x.client_secret_expires_at, x.get("registration_access_token") or "", dict(x.registration_response or {}),
            sorted((k.kty, getattr(k, "n", None) or getattr(k, "x", None) or str(getattr(k, "key", ""))) for k in (x.keyjar.get_issuer_keys("") if "" in x.keyjar else [])))


@test(cases(), quick=3000, thorough=40000)
def register(case, t):
    with World() as w:
        run(case, t, w)


def run(case, t, w):
    ops = [OP(w, i, tenant=case["tenants"][i]) for i in range(case["nops"])]
    for op in ops:
        op.meta = {s: True for s in case["support"]}
        op.meta["id_token_signing_alg_values_supported"] = ["RS256", "ES256"]
    args = copy.deepcopy(case["args"])
    if case["red"] == "args":
        args["redirect_uris"] = ["https://rp.example.com/arg"]
    if case["keys"] == "args":
        args["jwks_uri"] = "https://rp.example.com/argkeys"
        args["jwks"] = W.public_jwks("rp_ec384")
    orig = copy.deepcopy(args)
    rh = make_handler(case, ops, case["seed"])
    callbacks_of = {}
    for n, op in enumerate(ops):
        current = None            # the reply that is in effect
        seen = []
        seq = case["replies"] if n == 0 else [dict(case["replies"][0], kind="ok", secret=case["replies"][0]["secret"] or "s" * 20)]
        client = None
        for r in seq:
            op.reg_hook = lambda req: (seen.append(json.loads(req.body)), reply(r, req))[1]
            mark = len(w.log)
            if client is None:
                if args or case["via"] == "setup":
                    out = attempt(rh.client_setup, op.issuer, behaviour_args=args)
                else:
                    out = attempt(rh.begin, op.issuer)
                before = None
            else:
                before = facts(client)
                out = attempt(client.do_request, "registration", request_args=args)
            good = r["kind"] == "ok"
            reqs = w.since(mark, op.netloc, "/register")
            eq(len(reqs), 1, "registration requests")
            eq((reqs[0].method, reqs[0].headers.get("Content-Type", "").split(";")[0], reqs[0].query), ("POST", "application/json", []), "registration request")
            check("Authorization" not in reqs[0].headers, "registration request with {}", reqs[0].headers.get("Authorization"))
            red = announced(case, seen[-1], op, callbacks_of)
            if good:
                check(out.ok, "registration response {} wasn't accepted: {!r}", r, out)
                client = rh.issuer2rp[op.issuer]
                current = r
            else:
                if client is None:
                    check(not out.ok, "registration response {} was accepted", r["kind"])
                    check(op.issuer not in rh.issuer2rp, "a client that isn't registered is in use")
                else:
                    check(not out.ok or "error" in out.value, "registration response {} was accepted: {!r}", r["kind"], out)
                    eq(facts(client), before, "what's recorded after a failed registration")
            if current is None:
                continue
            use(case, t, w, rh, client, op, current, red)
        if case["nops"] > 1 or len(seq) > 1 or case["red"] or case["plo"]:
            t.nontriv("ops:%d" % case["nops"], "regs:%d" % len(seq), *["kind:" + r["kind"] for r in case["replies"]])
    eq(args, orig, "registration arguments")
    # the same seed gives the same callback URIs, in another handler too
    if callbacks_of:
        rh2 = make_handler(case, ops, case["seed"])
        rh3 = make_handler(case, ops, "yet another one")
        for op in ops:
            if op.issuer not in callbacks_of:
                continue
            got = []
            op.reg_hook = lambda req: (got.append(json.loads(req.body)), response(201, dict(json.loads(req.body), client_id="c", client_secret="s" * 20, client_secret_expires_at=0)))[1]
            rh2.client_setup(op.issuer, behaviour_args=args)
            announced(case, got[0], op, callbacks_of)
            if callbacks_of[op.issuer]:
                rh3.client_setup(op.issuer, behaviour_args=args)
                check(not set(json.dumps(got[1]).split('"')) & set(callbacks_of[op.issuer].values()), "callback URIs don't depend on the seed")


def use(case, t, w, rh, client, op, r, red):
    """The client uses exactly what was returned."""
    x = ctx(client)
    eq((x.client_id, x.client_secret or None, x.client_secret_expires_at, x.get("registration_access_token") or None), (r["cid"], r["secret"], r["exp"] if r["secret"] is not None else 0, r["rat"]), "adopted")
    op.secret = r["secret"]
    res = rh.begin(op.issuer)
    q = single(query_of(res["url"]))
    eq(q["client_id"], r["cid"], "client_id of the authorization request")
    check(q["redirect_uri"] in red, "redirect URI {} wasn't registered: {}", q["redirect_uri"], red)
    if r["secret"] is not None and all(ord(c) < 128 for c in r["secret"]) and "code" in q["response_type"].split():
        mark = len(w.log)
        client.client_get("service_context").state.store_item({"code": "thecode", "state": res["state"]}, "auth_response", res["state"])
        attempt(client.do_request, "accesstoken", request_args={"code": "thecode", "redirect_uri": q["redirect_uri"], "grant_type": "authorization_code"}, state=res["state"], authn_method=case["mymethod"])
        tr = w.since(mark, op.netloc, "/token")
        eq(len(tr), 1, "token requests")
        if case["mymethod"] == "client_secret_basic":
            cred = base64.b64decode(tr[0].headers["Authorization"].split(" ")[1]).decode()
            eq(tuple(unquote_plus(v) for v in cred.split(":", 1)), (r["cid"], r["secret"]), "credentials used")
        else:
            eq((tr[0].params().get("client_id"), tr[0].params().get("client_secret")), (r["cid"], r["secret"]), "credentials used")
        t.label("token request")
    if r["rat"]:
        mark = len(w.log)
        attempt(client.do_request, "registration_read")
        rr = w.log[mark:]
        eq(len(rr), 1, "read registration requests")
        eq((rr[0].method, rr[0].url, rr[0].headers.get("Authorization")), ("GET", "https://%s/reg/manage%s" % (op.netloc, r["q"]), "Bearer " + r["rat"]), "read registration request")
        t.label("read registration")
