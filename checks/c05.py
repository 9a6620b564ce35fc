"""C05: user info is accepted only for the authenticated subject and named claims."""
import json

from hypothesis import strategies as st

import world as W
from op import OP, RT, World, client_conf, ctx, handler, sign
from vt import attempt, check, eq, test

RULE = ("Case = a login (any flow, optionally followed by a refresh) whose user info response is generated: subject relation, claims, encoding "
        "(JSON or JWT, content type), signing key/algorithm or tampering, aggregated and distributed claim sources. Non-trivial: the subject "
        "differs, or the response is a JWT, or there is at least one claim source.")
ASSUMPTIONS = ["a claim that is both given directly and attributed to a source is not generated (except sub)",
               "unsigned (alg none) JWTs are not generated: they carry no signature that could verify"]

TEXT = st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=12)
SCALAR = st.one_of(TEXT, st.integers(-10 ** 9, 10 ** 9), st.booleans())
VALUE = st.one_of(SCALAR, st.lists(TEXT, min_size=1, max_size=3), st.dictionaries(TEXT, SCALAR, min_size=1, max_size=3))
CLAIMS = st.fixed_dictionaries({}, optional={
    "name": TEXT, "given_name": TEXT, "nickname": TEXT, "email": TEXT, "email_verified": st.booleans(), "locale": TEXT,
    "updated_at": st.integers(0, 2 ** 31), "address": st.fixed_dictionaries({}, optional={"street_address": TEXT, "country": TEXT}).filter(bool),
    "x_level": VALUE, "urn:ex:role": VALUE, "roles": st.lists(TEXT, min_size=1, max_size=3), "exp_x": SCALAR, "iat_x": SCALAR})
ATTR = ["shoe_size", "payment", "credit", "phone_number", "x-other"]
SUBREL = ["same"] * 9 + [ "other", "missing", "case", "suffix", "prefix", "space", "empty", "other_user", "list"]
SUBS = ["alice", "Bob-1", "\u00e5sa", "248289761001", "a b"]


@st.composite
def sources(draw):
    res = []
    free = list(ATTR)
    sids = draw(st.permutations(["src", "src1", "src12", "SRC1", "rc1"]))
    for i in range(draw(st.integers(0, 3))):
        names = draw(st.lists(st.sampled_from(free), unique=True, max_size=3)) if free else []
        for n in names:
            free.remove(n)
        have = {n: draw(TEXT if n == "phone_number" else VALUE) for n in names}
        res.append({"sid": sids[i], "kind": draw(st.sampled_from(["jwt", "jwt", "endpoint", "endpoint_token"])),
                    "names": names, "have": have,
                    "miss": draw(st.integers(0, 4)) == 0 and bool(names),
                    "extra": draw(st.dictionaries(st.sampled_from(["email", "name", "admin", "shoe_size", "payment", "credit", "phone_number", "sub", "phone_number_verified", "x_level"]), TEXT, max_size=4)),
                    "sub": draw(st.sampled_from([None, None, None, "mallory"])),
                    "sign": draw(st.sampled_from(["good", "good", "good", "unknown_issuer", "wrong_key", "tamper"])),
                    "status": draw(st.sampled_from([200, 200, 200, 200, 500, 401]))})
    return res


@st.composite
def cases(draw):
    return {"rt": draw(st.sampled_from(RT)), "sub": draw(st.sampled_from(SUBS)), "rel": draw(st.sampled_from(SUBREL)),
            "claims": draw(CLAIMS), "enc": draw(st.sampled_from(["json", "json", "jwt"])),
            "ctype": draw(st.sampled_from(["plain", "charset", "none", "upper"])),
            "alg": draw(st.sampled_from(["RS256", "ES256", "HS256"])), "reg_alg": draw(st.booleans()),
            "jwt_iss": draw(st.booleans()), "jwt_aud": draw(st.booleans()),
            "key": draw(st.sampled_from(["right", "right", "right", "right", "evil_same_kid", "evil", "other_op", "tamper_payload", "tamper_sig"])),
            "callback": draw(st.sampled_from([False, False, True])), "sources": draw(sources()), "when": draw(st.sampled_from(["finalize", "finalize", "later", "refresh", "refresh_idt", "refresh_idt_only"])),
            "dyn": draw(st.booleans()), "err": draw(st.sampled_from([0] * 8 + [200, 200, 400, 401]))}


def other_sub(rel, sub):
    return {"same": sub, "other": "mallory", "case": sub.swapcase(), "suffix": sub + "1", "prefix": sub[:-1], "space": sub + " ",
            "empty": "", "other_user": "second", "missing": None, "list": [sub, "mallory"]}[rel]


def evil_key(alg, same_kid):
    import copy
    k = copy.copy(W.key(W.kname("evil", alg)))
    if same_kid:
        k.kid = W.key(W.kname("op0", alg)).kid
    return k


@test(cases(), quick=4000, thorough=50000)
def userinfo_response(case, t):
    with World() as w:
        op, op1 = OP(w, 0), OP(w, 1)
        rt = case["rt"]
        conf = client_conf(op, rt, dynamic=case["dyn"])
        if case["reg_alg"]:
            conf["client_preferences" if case["dyn"] else "behaviour"]["userinfo_signed_response_alg"] = case["alg"]
            op.meta["userinfo_signing_alg_values_supported"] = ["RS256", "ES256", "HS256"]
        rh = handler({op.issuer: conf, op1.issuer: client_conf(op1, "code")})
        # another user's login at the same provider comes first
        r2 = rh.begin(op.issuer)
        rh.finalize(op.issuer, op.authorize(r2["url"], sub="second")[1])
        r = rh.begin(op.issuer)
        c = ctx(rh.issuer2rp[op.issuer])
        claims_provider = "https://claims.example.com"
        c.keyjar.import_jwks(W.public_jwks("op1_ec384"), claims_provider)

        sub = case["sub"]
        info = dict(case["claims"])
        s = other_sub(case["rel"], sub)
        if s is not None:
            info["sub"] = s
        err = case.get("err")
        if err:       # an error whatever else there is in it
            info["error"] = "temporarily_unavailable"
        same = s == sub
        if case["rel"] in ("case", "prefix") and same:
            t.label("case-insensitive sub")
        names, srcs, expect_add, maybe = {}, {}, {}, set()
        fetched = []
        for i, src in enumerate(case["sources"]):
            sid = src["sid"]
            have = dict(src["have"])
            for n in src["names"]:
                names[n] = sid
            if src["miss"]:
                del have[src["names"][0]]
            if src["sub"]:
                names["sub"] = sid
                have["sub"] = src["sub"]
            content = dict(src["extra"], **have)
            if src["sub"] is None and "sub" in names and names["sub"] == sid:
                del names["sub"]
            for n in src["names"]:
                content.pop(n, None)
                if n in have:
                    content[n] = have[n]
            if src["kind"] == "jwt":
                iss = claims_provider if src["sign"] != "unknown_issuer" else "https://nobody.example.com"
                owner_key = W.key("op1_ec384") if src["sign"] != "wrong_key" else W.key("evil_ec384")
                if src["sign"] == "wrong_key":
                    import copy
                    owner_key = copy.copy(owner_key)
                    owner_key.kid = W.key("op1_ec384").kid
                jwt = sign(dict(content, iss=iss), "ES384", keyobj=owner_key)
                if src["sign"] == "tamper":
                    h, p, sg = jwt.split(".")
                    p2 = W.b64(json.dumps(dict(content, iss=iss, tampered=1)).encode())
                    jwt = ".".join([h, p2, sg])
                srcs[sid] = {"JWT": jwt}
                if src["sign"] == "good":
                    expect_add.update({n: have[n] for n in src["names"] if n in have})
            else:
                tok = "dct-%d" % i
                srcs[sid] = {"endpoint": "https://dist.example.com/s%d" % i}
                if src["kind"] == "endpoint_token":
                    srcs[sid]["access_token"] = tok

        def dist(req):
            i = int(req.path[2:])
            src = case["sources"][i]
            fetched.append((i, req))
            if src["status"] != 200:
                return W.response(src["status"], {"error": "x", "shoe_size": "evil"})
            have = dict(src["have"])
            if src["miss"]:
                del have[src["names"][0]]
            body = dict(src["extra"])
            for n in src["names"]:
                body.pop(n, None)
            body.update(have)
            if src["sub"]:
                body["sub"] = src["sub"]
            return W.response(200, body)
        w.serve("dist.example.com", dist)
        if srcs:
            info["_claim_sources"] = srcs
            info["_claim_names"] = dict(names)

        def ui(req):
            ct = {"plain": "application/json", "charset": "application/json; charset=UTF-8", "none": None, "upper": "application/JSON"}[case["ctype"]]
            if case["enc"] == "json":
                return W.response(err or 200, info, ct)
            pl = dict(info)
            if case["jwt_iss"]:
                pl["iss"] = op.issuer
            if case["jwt_aud"]:
                pl["aud"] = [c.client_id]
            alg = case["alg"]
            kw = {"owner": "op0", "secret": op.secret}
            if case["key"].startswith("evil"):
                if alg == "HS256":
                    kw["secret"] = "another secret of the same length as it should be"
                else:
                    kw = {"keyobj": evil_key(alg, case["key"] == "evil_same_kid")}
            elif case["key"] == "other_op":
                if alg == "HS256":
                    kw["secret"] = op1.secret
                else:
                    kw = {"owner": "op1"}
            jwt = sign(pl, alg, **kw)
            h, p, sg = jwt.split(".")
            if case["key"] == "tamper_payload":
                p = W.b64(json.dumps(dict(pl, x_tampered=True)).encode())
            elif case["key"] == "tamper_sig":
                sg = ("A" if sg[0] != "A" else "B") + sg[1:]
            return W.response(err or 200, ".".join([h, p, sg]), "application/jwt" + {"charset": "; charset=UTF-8"}.get(case["ctype"], ""))

        lg, resp = op.authorize(r["url"], sub=sub)
        if case["when"] == "finalize":
            op.userinfo_hook = ui
            out = attempt(rh.finalize, op.issuer, resp)
            done = rt != "id_token"
            got = out.value["userinfo"] if out.ok and "error" not in out.value else None
        else:
            if case["when"] == "refresh_idt_only":
                # the ID Token that counts comes with the refresh only
                def bare(req, _op=op):
                    r_ = op.token(req)
                    lg.id_tokens.pop()
                    return W.response(200, {k: v for k, v in json.loads(r_.text).items() if k != "id_token"})
                op.token_hook = bare
            f = attempt(rh.finalize, op.issuer, resp)
            op.token_hook = None
            check(f.ok and "error" not in f.value, "plain login failed: {!r}", f)
            if case["when"].startswith("refresh") and lg.rts:
                op.refresh_idt = case["when"] != "refresh"
                rh.refresh_access_token(r["state"])
            op.userinfo_hook = ui
            done = bool(lg.ats)
            before = rh.get_session_information(r["state"]).to_dict().get("user_info")
            out = attempt(rh.get_user_info, r["state"])
            got = out.value if out.ok and "error" not in out.value else None
        if not done:
            t.label("no user info request")
            return
        has_idt = bool(lg.id_tokens)
        stored = rh.get_session_information(r["state"]).to_dict().get("user_info")
        stored = json.loads(stored) if isinstance(stored, str) else stored
        jwt = case["enc"] == "jwt"
        if s != sub or jwt or srcs:
            t.nontriv("rel:" + case["rel"], "enc:" + case["enc"], "sources:%d" % len(srcs))
        t.label("when:" + case["when"], "key:" + case["key"] if jwt else "-")
        bad_sub = has_idt and not same
        bad_sub = bad_sub or not isinstance(s, str) or s == ""
        bad_sig = jwt and case["key"] != "right"
        if case["when"] == "finalize":
            before = None
        else:
            before = json.loads(before) if isinstance(before, str) else before
        if bad_sub or bad_sig or err:
            t.label("error" if err else "must refuse")
            check(got is None, "accepted user info (subject {!r} for {!r}, key {}): {!r}", s, sub if has_idt else None, case["key"] if jwt else None, got)
            eq(stored, before, "stored user info after a refusal")
        else:
            doubtful = any(x["kind"] == "jwt" and x["sign"] in ("wrong_key", "tamper") for x in case["sources"])
            if got is None:
                check(doubtful or jwt and (not case["jwt_iss"]), "valid user info refused: {!r}", out)
                t.label("refused, allowed")
                eq(stored, before, "stored user info after a refusal")
            else:
                t.label("accepted")
                have = json.loads(json.dumps(got.to_dict()))
                want = dict(info, **expect_add)
                if jwt:
                    for k in ("iss", "aud"):
                        have.pop(k, None)
                eq(have, want, "user info")
                if jwt:
                    for k in ("iss", "aud"):
                        stored.pop(k, None)
                eq(stored, want, "stored user info")
                # distributed sources, fetched on request of the application
                ends = [i for i, x in enumerate(case["sources"]) if x["kind"] != "jwt"]
                if ends:
                    asked = []
                    cb = {"callback": lambda url: asked.append(url) or "cbt-" + url} if case.get("callback") else {}
                    dd = attempt(rh.issuer2rp[op.issuer].fetch_distributed_claims, got, **cb)
                    okst = all(case["sources"][i]["status"] == 200 for i in ends)
                    check(not okst or dd.ok, "fetching distributed claims failed: {!r}", dd)
                    final = {k: v for k, v in got.to_dict().items() if not (jwt and k in ("iss", "aud"))}
                    for i in ends:
                        x = case["sources"][i]
                        if x["status"] == 200 and dd.ok:
                            want.update({n: v for n, v in x["have"].items() if not (x["miss"] and n == x["names"][0])})
                    if dd.ok:
                        eq(json.loads(json.dumps(dict(final))), want, "user info with distributed claims")
                    else:
                        eq(final["sub"], sub if has_idt else s, "subject after a failed fetch")
                        for k in final:
                            check(k in want or k in names, "claim {} added by a source that was not to be used for it", k)
                    for i, req in fetched:
                        a = req.headers.get("Authorization")
                        url = "https://dist.example.com/s%d" % i
                        given = case["sources"][i]["kind"] == "endpoint_token"
                        # the application is asked for a token only when none came with the source
                        eq(asked.count(url), 1 if cb and not given else 0, "application asked for a token")
                        eq(a, "Bearer dct-%d" % i if given else "Bearer cbt-" + url if cb else None, "authorization at a claims source")
                        eq(req.method, "GET", "method at a claims source")
                    check({i for i, _ in fetched} <= set(ends), "fetched {}", fetched)
                    t.label("distributed")
