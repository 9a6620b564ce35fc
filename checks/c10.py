"""C10: DPoP proofs are valid for exactly the request they accompany."""
import base64
import hashlib
import json

from cryptojwt.jws.jws import JWS
from hypothesis import strategies as st

import world as W
from clock import Clock
from op import OP, TENANTS, World, client_conf, handler, services, single
from vt import attempt, check, eq, test

RULE = ("Case = algorithm lists of client and provider (or silence), endpoint shapes, HTTP method of the user info request and a history of logins, token, refresh and user info "
        "requests on a controlled clock with two clients (with and without handler); each proof is parsed and verified from the raw header. Non-trivial: at least two proofs were checked, or there is nothing shared.")
ASSUMPTIONS = ["signatures are verified with cryptojwt using only the embedded public key"]

FAM = {"RS256": "RSA", "RS384": "RSA", "RS512": "RSA", "PS256": "RSA", "PS384": "RSA", "ES256": "EC", "ES384": "EC", "ES512": "EC"}
CRV = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k"}
SEEN = set()

EC = st.sampled_from(["ES256", "ES384", "ES512"])
ALG = st.one_of(EC, EC, EC, EC, EC, EC, st.sampled_from(["RS256", "PS256", "RS384"]), st.just("XX999"))
# a key is generated for each client: RSA only now and then
CLIENT = st.lists(st.one_of(EC, EC, EC, EC, EC, EC, EC, EC, st.sampled_from(["RS256", "RS512", "PS256"])), min_size=1, max_size=3, unique=True)


@st.composite
def cases(draw):
    def side():
        c = draw(CLIENT)
        op = draw(st.one_of(st.sampled_from([None, []]), st.lists(ALG, max_size=4, unique=True), st.permutations(c).map(list), st.permutations(["ES256", "ES384", "ES512", "RS256"]),
                            st.permutations(["RS256", "PS256", "ES512", "ES384", "RS512", "ES256"])))
        return {"client": c, "op": op, "q": draw(st.sampled_from(["", "", "", "?x=1", "?tenant=a&b=c%20d"])),
                "place": draw(st.sampled_from([None, None, "https://tok%d.example.net", "https://op%d.example.org:8443"])),
                "http": draw(st.sampled_from(["GET", "GET", "POST"])), "auth": draw(st.sampled_from(["client_secret_basic", "client_secret_post", "private_key_jwt"]))}
    return {"tenants": draw(st.sampled_from(TENANTS)), "sides": [side(), side()], "share": draw(st.booleans()), "dyn": draw(st.booleans()),
            "ops": draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["login", "login", "userinfo", "token", "refresh", "userinfo POST", "userinfo GET"]), st.integers(0, 3), st.sampled_from([0, 0.5, 1, 61, 5000])),
                                 min_size=1, max_size=8))}


def choose(client, op):
    return next((a for a in client if a in (op or [])), None)


def b64d(s):
    return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))


def proof(req, alg, now, key, path_url):
    """Verify the proof of a request as RFC 9449, section 4.3. Returns the thumbprint of the key."""
    hdrs = [v for k, v in req.headers.items() if k.lower() == "dpop"]
    eq(len(hdrs), 1, "proofs in the request")
    tok = hdrs[0]
    check("," not in tok and tok.count(".") == 2, "proof {!r}", tok)
    hdr = json.loads(b64d(tok.split(".")[0]))
    eq(hdr.get("typ"), "dpop+jwt", "type")
    eq(hdr.get("alg"), alg, "algorithm")
    jwk = hdr.get("jwk")
    check(isinstance(jwk, dict) and not PRIVATE & set(jwk), "private key material in {}", sorted(jwk or {}))
    eq(jwk.get("kty"), FAM[alg], "key type")
    if alg in CRV:
        eq(jwk.get("crv"), CRV[alg], "curve")
    pub = W.key_from_jwk_dict(dict(jwk), private=False)
    try:
        JWS(alg=alg).verify_compact(tok, [pub])
    except Exception as err:
        check(False, "proof does not verify: {!r}", err)
    pl = json.loads(b64d(tok.split(".")[1]))
    eq(pl.get("htm"), req.method, "method in the proof")
    eq(pl.get("htu"), req.base, "URL in the proof")
    eq(req.base, path_url, "endpoint")
    eq(pl.get("iat"), int(now), "time in the proof")
    jti = pl.get("jti")
    check(isinstance(jti, str) and len(jti) >= 16 and jti not in SEEN, "identifier {!r}", jti)
    SEEN.add(jti)
    for k in ("d", "p", "q"):
        check(k not in pl, "private key material in the payload")
    th = {k: jwk[k] for k in (("e", "kty", "n") if jwk["kty"] == "RSA" else ("crv", "kty", "x", "y"))}
    return hashlib.sha256(json.dumps(th, sort_keys=True).encode()).hexdigest()


@test(cases(), quick=1600, thorough=20000)
def proofs(case, t):
    with World() as w, Clock() as clock:
        ops, confs, sides = [], {}, []
        shared = {"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": list(case["sides"][0]["client"])}}}
        for i in (0, 1):
            s = dict(case["sides"][i])
            if case["share"]:
                s["client"] = case["sides"][0]["client"]
            o = OP(w, i, endpoint_query=s["q"], places={"token_endpoint": s["place"] % i} if s["place"] else None, tenant=case["tenants"][i])
            if s["op"] is not None:
                o.meta = {"dpop_signing_alg_values_supported": s["op"]}
            sv = services()
            sv["userinfo"]["kwargs"] = {"conf": {"http_method": s["http"]}}
            add = shared if case["share"] else {"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": list(s["client"])}}}
            conf = client_conf(o, dynamic=case["dyn"], add_ons=add, services=sv)
            conf["client_preferences" if case["dyn"] else "behaviour"]["token_endpoint_auth_method"] = s["auth"]
            confs[o.issuer] = conf
            ops.append(o)
            sides.append(s)
        rh = handler(confs)
        # the same clients without the add-on
        plain = handler({k: {a: b for a, b in v.items() if a != "add_ons"} for k, v in confs.items()})
        logins = [[], []]
        keys = [None, None]
        n = 0
        for i, what, j, dt in case["ops"]:
            clock.advance(dt)
            o, s = ops[i], sides[i]
            alg = choose(s["client"], s["op"])
            reqs = []
            for h in (rh, plain):
                if what == "login" or not logins[i]:
                    r = h.begin(o.issuer)
                    lg, resp = o.authorize(r["url"])
                    mark = len(w.log)
                    out = attempt(h.finalize, o.issuer, dict(resp))
                    check(out.ok and "error" not in out.value, "login failed: {!r}", out)
                    if h is rh:
                        new = [r["state"]]
                    else:
                        logins[i].append(new + [r["state"]])
                else:
                    st_ = logins[i][j % len(logins[i])][0 if h is rh else 1]
                    mark = len(w.log)
                    if what.startswith("userinfo "):
                        h.issuer2rp[o.issuer].do_request("userinfo", state=st_, method=what[9:])
                    else:
                        {"userinfo": h.get_user_info, "token": h.get_tokens, "refresh": h.refresh_access_token}[what](st_)
                reqs.append([q for q in w.since(mark)])
            got, ref = reqs
            eq([(q.method, q.path) for q in got], [(q.method, q.path) for q in ref], "requests with and without the add-on")
            for q, p in zip(got, ref):
                has = [k for k in q.headers if k.lower() == "dpop"]
                eq(sorted(k.lower() for k in q.headers if k.lower() not in ("dpop", "content-length")),
                   sorted(k.lower() for k in p.headers if k.lower() != "content-length"), "headers with and without the add-on")
                eq(sorted(single(q.form)), sorted(single(p.form)), "body with and without the add-on")
                eq((q.query, q.headers.get("content-type")), (p.query, p.headers.get("content-type")), "query and type with and without the add-on")
                if alg is None:
                    check(not has, "proof for a provider that shares no algorithm: {!r}", q)
                elif q.path == "/userinfo" or (q.path == "/token" and what != "refresh") or has:
                    check(q.path in ("/userinfo", "/token"), "proof sent to {}", q.path)
                    th = proof(q, alg, clock.now, keys[i], o.ep("token_endpoint" if q.path == "/token" else "userinfo_endpoint").partition("?")[0])
                    check(keys[i] in (None, th), "the client changed its key")
                    keys[i] = th
                    n += 1
            t.label("op:" + what)
        check(keys[0] is None or keys[0] != keys[1], "two clients use the same key")
        if n >= 2 or all(choose(s["client"], s["op"]) is None for s in sides):
            t.nontriv(*["alg:%s" % choose(s["client"], s["op"]) for s in sides])
