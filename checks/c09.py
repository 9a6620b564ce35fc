"""C09: Client authentication proves the client by its method and leaks nothing else."""
import base64
import hashlib
import hmac
import json
import time
from urllib.parse import quote, quote_plus, unquote_plus

from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar
from hypothesis import strategies as st

import world as W
from op import OP, World, client_conf, handler, query_of, response, single
from vt import attempt, check, eq, test

RULE = ("Case = client id and secret text, authentication method, algorithm preferences at configuration / registration / provider, own keys and a history of token, refresh and "
        "user info requests; the simulated server authenticates the client from the raw HTTP request following RFC 6749/7521/7523/6750 with its own code (HMAC by hashlib). "
        "Non-trivial: an assertion was verified, or id/secret contain characters that need encoding, or a bearer token was taken from more than one possible place.")
ASSUMPTIONS = ["cryptojwt accepts no symmetric keys shorter than 16 bytes", "asymmetric signatures are verified with cryptojwt", "client_secret_jwt without a configured algorithm at a provider offering no HMAC algorithm is a known finding"]

JWT_BEARER = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
HS = {"HS256": hashlib.sha256, "HS384": hashlib.sha384, "HS512": hashlib.sha512}
KEYS = {"rsa": {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}, "ec256": {"ES256"}, "ec384": {"ES384"}}
ASYM = ["RS256", "RS512", "PS256", "ES256", "ES384", "RS384"]
SEEN = set()

TEXT = st.text(alphabet=st.one_of(st.sampled_from("abcXYZ019-_.~:%+/=&?;@ #\"'\\<>{}|^`!$*()[],"), st.sampled_from("åβ€😀é\u00a0")), min_size=10, max_size=60)
NICE = st.text(alphabet="abcdefXYZ0123456789-_", min_size=32, max_size=70)


@st.composite
def cases(draw):
    method = draw(st.sampled_from(["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]))
    algs = list(HS) if method == "client_secret_jwt" else ASYM
    return {"method": method, "cid": draw(st.one_of(TEXT, NICE)), "secret": "S3c" + draw(st.one_of(TEXT, NICE, NICE)) + ("" if method in ("client_secret_basic", "client_secret_post") else "x" * 20),
            "dyn": draw(st.booleans()), "rereg": draw(st.sampled_from([0, 0, 0, 1])),
            "conf_alg": draw(st.sampled_from([None, None] + algs)), "reg_alg": draw(st.sampled_from([None, None, "echo"] + algs)),
            "pi_algs": draw(st.sampled_from([None, ["RS256", "HS256", "ES256"], ["RS256"], ["HS256"]]) if method == "x" else
                            st.one_of(st.none(), st.lists(st.sampled_from(list(HS) + ASYM), min_size=1, max_size=5, unique=True))),
            "keys": draw(st.sampled_from([["rsa"], ["ec256"], ["rsa", "ec256"], ["ec256", "rsa"], ["ec384", "rsa"], ["ec256", "ec384", "rsa"]])),
            "rt": draw(st.sampled_from(["code", "code", "code id_token", "code token", "code id_token token"])),
            "logins": draw(st.integers(1, 3)), "place": draw(st.sampled_from([None, None, "https://tok.example.net", "https://op0.example.org:8443", "https://op0.example.org.example.net"])),
            "query": draw(st.sampled_from(["", "", "?tenant=a", "?t=1&u=%2Fx%20y"])),
            "ops": draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["refresh", "userinfo", "token"])), max_size=6))}


def expected(case):
    """(set of algorithms, exact?) the server may find, or None where nothing is usable."""
    own = {"HS256", "HS384", "HS512"} if case["method"] == "client_secret_jwt" else set().union(*[KEYS[k] for k in case["keys"]])
    conf = case["conf_alg"]
    if case["dyn"]:
        reg = conf if case["reg_alg"] == "echo" else case["reg_alg"]
        conf = reg or conf
    if conf:
        return {conf} if conf in own else set()
    if case["pi_algs"] is None:
        return {"RS256"} & own if case["method"] == "private_key_jwt" else own
    # nothing the provider announces is usable: the default of the method, which the provider will refuse
    return {a for a in case["pi_algs"] if a in own} or ({"RS256"} & own if case["method"] == "private_key_jwt" else {"HS256"})


def known_key(case):
    if case["method"] == "client_secret_jwt" and not case["conf_alg"] and (not case["dyn"] or case["reg_alg"] in (None, "echo")) \
            and not any(a.startswith("HS") for a in case["pi_algs"] or []):
        return "no-hmac-default"


def verify_hmac(token, secret):
    h, p, s = token.split(".")
    hdr = json.loads(base64.urlsafe_b64decode(h + "=="))
    if hdr.get("alg") not in HS:
        return hdr, None
    mac = hmac.new(secret.encode("utf-8"), (h + "." + p).encode(), HS[hdr["alg"]]).digest()
    if base64.urlsafe_b64encode(mac).decode().rstrip("=") != s:
        return hdr, None
    return hdr, json.loads(base64.urlsafe_b64decode(p + "=="))


def verify_asym(token, keys):
    h, p, s = token.split(".")
    hdr = json.loads(base64.urlsafe_b64decode(h + "=="))
    for name, algs in KEYS.items():
        if hdr.get("alg") in algs and name in keys:
            k = W.key("rp_" + name)
            pub = W.key_from_jwk_dict(k.serialize(private=False))
            if "kid" in hdr and hdr["kid"] != pub.kid:
                continue
            try:
                JWS(alg=hdr["alg"]).verify_compact(token, [pub])
            except Exception:
                continue
            return hdr, json.loads(base64.urlsafe_b64decode(p + "=="))
    return hdr, None


def leaks(req, secret):
    """Does the secret appear anywhere in the request, in any of the usual encodings?"""
    hay = [req.url, req.body] + ["%s: %s" % kv for kv in req.headers.items()]
    hay += [unquote_plus(x) for x in hay]
    for v in list(req.headers.values()):
        if str(v).startswith("Basic "):
            try:
                hay.append(unquote_plus(base64.b64decode(str(v)[6:]).decode("utf-8", "replace")))
            except Exception:
                pass
    try:
        hay.append(json.dumps(json.loads(req.body), ensure_ascii=False))
    except ValueError:
        pass
    needles = {secret, quote_plus(secret), quote(secret, safe=""), json.dumps(secret)[1:-1]}
    return any(n in x for n in needles for x in hay)


def authenticate(case, req, op, cid, secret, t):
    """What the server of the specification does with a token endpoint request; returns nothing, fails on a violation."""
    form = single(req.form)
    method = case["method"]
    auth = req.headers.get("Authorization")
    basic = method == "client_secret_basic"
    check(secret not in req.url, "secret in the URL {}", req.url)
    eq(req.query_string, case.get("query", "")[1:], "query of the token request")
    if basic:
        check(auth is not None and auth.startswith("Basic "), "Authorization header {!r}", auth)
        raw = base64.b64decode(auth[6:], validate=True).decode("utf-8")
        u, _, p = raw.partition(":")
        eq((unquote_plus(u), unquote_plus(p)), (cid, secret), "credentials in the Authorization header")
        eq(form.get("client_id", cid), cid, "client_id in the body")
        check(not leaks(type("R", (), {"url": req.url, "body": req.body, "headers": {}}), secret), "secret in the body {!r}", req.body)
    else:
        check(auth is None, "Authorization header {!r} with {}", auth, method)
    if method == "client_secret_post":
        eq((form.get("client_id"), form.get("client_secret")), (cid, secret), "credentials in the body")
    else:
        check("client_secret" not in form, "client_secret sent with {}", method)
    if method.endswith("_jwt"):
        check(not leaks(req, secret), "secret in the request {!r}", req)
        eq(form.get("client_assertion_type"), JWT_BEARER, "client_assertion_type")
        tok = form.get("client_assertion")
        check(isinstance(tok, str) and tok.count(".") == 2, "client_assertion {!r}", tok)
        alg = json.loads(base64.urlsafe_b64decode(tok.split(".")[0] + "==")).get("alg")
        allowed = expected(case)
        key = known_key(case) if not alg.startswith("HS") else None
        check(alg in allowed, "assertion algorithm {} not among {}", alg, sorted(allowed), key=key)
        hdr, claims = verify_hmac(tok, secret) if method == "client_secret_jwt" else verify_asym(tok, case["keys"])
        check(claims is not None, "assertion does not verify; header {}", hdr)
        eq((claims.get("iss"), claims.get("sub")), (cid, cid), "issuer and subject of the assertion")
        aud = claims.get("aud")
        aud = [aud] if isinstance(aud, str) else aud
        eq(aud, [op.ep("token_endpoint")], "audience of the assertion")
        now = time.time()
        check(isinstance(claims.get("exp"), int) and now < claims["exp"] <= now + 3600, "expiry of the assertion {} at {}", claims.get("exp"), now)
        check("iat" not in claims or now - 60 <= claims["iat"] <= now + 5, "issued at {}", claims.get("iat"))
        jti = claims.get("jti")
        check(isinstance(jti, str) and len(jti) >= 16 and jti not in SEEN, "assertion identifier {!r}", jti)
        SEEN.add(jti)
        eq(form.get("client_id", cid), cid, "client_id in the body")
        t.nontriv("alg:" + alg)
    else:
        check("client_assertion" not in form, "assertion sent with {}", method)
        if cid != quote_plus(cid) or secret != quote_plus(secret):
            t.nontriv("encoding")


@test(cases(), quick=4000, thorough=50000)
def token_endpoint(case, t):
    with World() as w:
        op = OP(w, 0, places={"token_endpoint": case["place"]} if case.get("place") else None, endpoint_query=case.get("query", ""))
        op.meta = {"token_endpoint_auth_signing_alg_values_supported": case["pi_algs"],
                   "token_endpoint_auth_methods_supported": ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]}
        op.rotate = False
        cid, secrets = case["cid"], [case["secret"], case["secret"][::-1] + "2nd"]
        regs = []

        def reg(req):
            res = dict(json.loads(req.body), client_id=cid, client_secret=secrets[len(regs)], client_secret_expires_at=0)
            regs.append(1)
            if case["reg_alg"] != "echo":
                res.pop("token_endpoint_auth_signing_alg", None)
                if case["reg_alg"]:
                    res["token_endpoint_auth_signing_alg"] = case["reg_alg"]
            return response(201, res)
        op.reg_hook = reg
        kj = KeyJar()
        ks = {"keys": [W.key("rp_" + k).serialize(private=True) for k in case["keys"]]}
        kj.import_jwks(ks, "")
        kj.import_jwks(ks, "https://rp.example.com")
        conf = client_conf(op, case["rt"], dynamic=case["dyn"], client_id=cid, secret=secrets[0])
        b = conf["client_preferences" if case["dyn"] else "behaviour"]
        b["token_endpoint_auth_method"] = case["method"]
        if case["conf_alg"]:
            b["token_endpoint_auth_signing_alg"] = case["conf_alg"]
        rh = handler({op.issuer: conf}, keyjar=kj)
        secret = secrets[0]
        usable = expected(case) if case["method"].endswith("_jwt") else True
        # a provider that does not support the algorithm the client insists on: negotiation fails (C14)
        out = attempt(rh.begin, op.issuer)
        if not out.ok and case["dyn"] and case["conf_alg"] and case["conf_alg"] not in (case["pi_algs"] or []):
            t.label("not-negotiable")
            return
        check(out.ok, "login could not be started: {!r}", out)
        if case["rereg"] and case["dyn"]:
            rh.issuer2rp[op.issuer].do_request("registration")
            eq(len(regs), 2, "registrations")
            secret = secrets[1]
            t.label("registered twice")
        logins = []
        for _ in range(case["logins"]):
            mark = len(w.log)
            r = rh.begin(op.issuer)
            check(not any(leaks(q, s) for q in w.log[mark:] for s in secrets), "secret in a request")
            check(all(s not in unquote_plus(r["url"]) for s in secrets), "secret in the authorization URL")
            lg, resp = op.authorize(r["url"])
            mark = len(w.log)
            out = attempt(rh.finalize, op.issuer, dict(resp))
            reqs = w.since(mark, None, "/token")
            if not usable and not reqs:
                t.label("no usable algorithm")
                return
            check(out.ok and "error" not in out.value, "login failed: {!r}", out,
                  key=known_key(case) if out.exc is not None and type(out.exc).__name__ in ("UnsupportedAlgorithm", "MissingKey") else None)
            check(len(reqs) == 1 or "token" in case["rt"], "token requests: {}", reqs)
            if not reqs:
                continue
            authenticate(case, reqs[0], op, cid, secret, t)
            logins.append((r["state"], lg))
            for q in w.since(mark):
                if q.path != "/token":
                    check(not any(leaks(q, s) for s in secrets) and "client_assertion" not in q.url + q.body, "credentials in {!r}", q)
        for i, what in case["ops"] if logins else []:
            state, lg = logins[i % len(logins)]
            mark = len(w.log)
            if what == "refresh":
                rh.refresh_access_token(state)
            elif what == "token":
                rh.get_tokens(state)
            else:
                rh.get_user_info(state)
            for q in w.since(mark):
                if q.path == "/token":
                    authenticate(case, q, op, cid, secret, t)
                else:
                    check(not any(leaks(q, s) for s in secrets), "credentials in {!r}", q)
            t.label("op:" + what)
        t.label("method:" + case["method"], "dyn" if case["dyn"] else "static")


TOKEN = st.text(alphabet="ABCxyz0189-._~+/=", min_size=5, max_size=60)


@st.composite
def bearer_cases(draw):
    places = ["arg", "kwarg", "auth_response", "token_response", "refresh_token_response"]
    return {"method": draw(st.sampled_from(["bearer_header", "bearer_body"])), "service": draw(st.sampled_from(["userinfo", "userinfo", "refresh_token"])),
            "tok": {p: draw(st.one_of(st.none(), TOKEN)) for p in places}, "other": draw(TOKEN), "rt": [draw(st.one_of(st.none(), TOKEN)) for _ in range(2)],
            "extra": draw(st.booleans()), "http": draw(st.sampled_from(["GET", "POST"]))}


@test(bearer_cases(), quick=2500, thorough=40000)
def bearer(case, t):
    """Exactly the chosen token: request argument, else keyword, else the latest received for this login."""
    from oidcmsg.message import Message
    from oidcmsg.oauth2 import AccessTokenResponse, AuthorizationResponse
    with World() as w:
        op = OP(w, 0)
        rh = handler({op.issuer: client_conf(op, "code token")})
        states = [rh.begin(op.issuer)["state"], rh.begin(op.issuer)["state"]]
        cl = rh.issuer2rp[op.issuer]
        si = cl.client_get("service_context").state
        for place in ["auth_response", "token_response", "refresh_token_response"]:
            cls = AuthorizationResponse if place == "auth_response" else AccessTokenResponse
            args = {"access_token": case["tok"][place]} if case["tok"][place] else {}
            for i, p in enumerate(["token_response", "refresh_token_response"]):
                if place == p and case["rt"][i]:
                    args["refresh_token"] = case["rt"][i]
            if args:
                si.store_item(cls(**args), place, states[0])
            si.store_item(cls(access_token="other-" + case["other"], refresh_token="otherr-" + case["other"]), place, states[1])
        if case["service"] == "refresh_token":
            if case["method"] == "bearer_body":
                return
            want = case["rt"][1] or case["rt"][0]
            args, kw = {}, {}
        else:
            tk = case["tok"]
            want = tk["arg"] or tk["kwarg"] or tk["refresh_token_response"] or tk["token_response"] or tk["auth_response"]
            stored = tk["refresh_token_response"] or tk["token_response"] or tk["auth_response"]
            if tk["kwarg"] and stored and not tk["arg"]:
                want = None     # both given: either is a documented choice, see below
            args = {"access_token": tk["arg"]} if tk["arg"] else {}
            kw = {"access_token": tk["kwarg"]} if tk["kwarg"] else {}
        if case["extra"] and case["service"] == "userinfo":
            args["claims"] = "x"
        http = "POST" if case["method"] == "bearer_body" or case["service"] == "refresh_token" else case["http"]
        svc = cl.client_get("service", case["service"])
        out = attempt(svc.get_request_parameters, request_args=args, method=http, authn_method=case["method"], state=states[0], key=states[0],
                      request_body_type="urlencoded", **kw)
        if case["service"] == "userinfo" and want is None and kw:
            want = kw["access_token"] if out.ok and kw["access_token"] in json.dumps(out.value, default=str) else stored
        if case["service"] == "userinfo":
            # asked for by itself, as for a request to another service
            tk = case["tok"]
            alone = tk["arg"] or tk["kwarg"] or tk["refresh_token_response"] or tk["token_response"] or tk["auth_response"]
            given = {"access_token": tk["arg"]} if tk["arg"] else {}
            head = attempt(svc.get_authn_header, Message(**given), "bearer_header", authn_endpoint="userinfo_endpoint", key=states[0], **kw)
            check(head.ok == bool(alone) and (not alone or head.value == {"Authorization": "Bearer " + alone}), "headers by themselves: {!r}, the token is {!r}", head, alone)
        if not want:
            check(not out.ok, "request without token: {!r}", out)
            t.label("no token")
            return
        check(out.ok, "request failed: {!r}", out)
        info = out.value
        hdr = info.get("headers", {}).get("Authorization")
        form = single(query_of("https://x/?" + (info.get("body") or "")))
        if case["method"] == "bearer_header":
            eq(hdr, "Bearer " + want, "Authorization header")
            check("access_token" not in form and "access_token" not in info["url"] and "refresh_token" not in form, "token also elsewhere: {!r}", info)
        else:
            check(hdr is None, "Authorization header {!r}", hdr)
            eq(form.get("access_token"), want, "token in the body")
            check("access_token" not in info["url"], "token in the URL {}", info["url"])
        check("other" + "-" not in json.dumps({k: str(v) for k, v in info.items()}), "token of another login: {!r}", info)
        if sum(bool(v) for v in case["tok"].values()) > 1:
            t.nontriv("places")
        t.label(case["service"], case["method"], http)


@test(st.fixed_dictionaries({"m": st.sampled_from(["client_secret_jwt", "private_key_jwt"]), "given": st.one_of(st.none(), st.just("eyJh.eyJi.c2ln"), TOKEN.filter(lambda x: "&" not in x)),
                             "secret": st.sampled_from([None, "own", "other"]), "svc": st.sampled_from(["accesstoken", "refresh_token"]), "direct": st.booleans(),
                             "ctype": st.sampled_from(["urlencoded", "json"]), "life": st.sampled_from([None, 30, 5000]), "as": st.sampled_from(["kwarg", "arg"]),
                             "type": st.sampled_from([None, None, "urn:ietf:params:oauth:client-assertion-type:saml2-bearer"])}), quick=800, thorough=10000)
def caller_arguments(case, t):
    """A caller that gives the assertion, or a secret, itself: the assertion is the one that's sent and the secret never is."""
    from oidcmsg.oidc import AccessTokenRequest
    from oidcrp.client_auth import factory
    with World() as w:
        op = OP(w, 0)
        rh = handler({op.issuer: client_conf(op)})
        r = rh.begin(op.issuer)
        lg, resp = op.authorize(r["url"])
        rh.finalize(op.issuer, dict(resp))
        svc = rh.issuer2rp[op.issuer].client_get("service", case["svc"])
        args = {"own": {"client_secret": op.secret}, "other": {"client_secret": "another-secret-of-the-client-0123456789"}, None: {}}[case["secret"]]
        own = {"client_assertion": case["given"]} if case["given"] else {}
        typ = case.get("type") if own else None
        if typ:
            own["client_assertion_type"] = typ
        kw = own if case.get("as") != "arg" else {}
        if not kw:
            args.update(own)
        if case.get("life"):
            kw["lifetime"] = case["life"]
        if case["direct"]:
            req = AccessTokenRequest(grant_type="authorization_code", code="c", redirect_uri="https://rp.example.com/cb", **args)
            a = factory(case["m"])
            a.construct(req, svc, **kw)
            form = req.to_dict()
        else:
            info = svc.get_request_parameters(request_args=dict(args), authn_method=case["m"], state=r["state"], request_body_type=case["ctype"], **kw)
            check(not leaks(type("R", (), {"url": info["url"], "body": info["body"], "headers": info["headers"]}), op.secret), "secret in the request {!r}", info)
            form = json.loads(info["body"]) if case["ctype"] == "json" else single(query_of("https://x/?" + info["body"]))
        check("client_secret" not in form, "the secret is sent along: {!r}", form)
        eq(form.get("client_assertion_type"), typ or JWT_BEARER, "type of the assertion")
        if case["given"]:
            eq(form.get("client_assertion"), case["given"], "assertion")
            t.nontriv("given")
        else:
            hdr, claims = verify_hmac(form["client_assertion"], op.secret) if case["m"] == "client_secret_jwt" else verify_asym(form["client_assertion"], list(KEYS))
            check(claims is not None, "assertion does not verify")
            eq(claims["exp"] - claims["iat"], case.get("life") or 600, "lifetime of the assertion")
        t.label(case["m"])


CRED = st.one_of(st.none(), st.none(), st.just("a b:c/ü&d=%20"), NICE, TEXT)


@test(st.fixed_dictionaries({"m": st.sampled_from(["client_secret_basic", "client_secret_basic", "client_secret_post"]), "svc": st.sampled_from(["accesstoken", "refresh_token"]),
                             "ctype": st.sampled_from(["urlencoded", "json"]), "user": CRED, "password": CRED, "arg_secret": CRED, "arg_cid": CRED,
                             "cid": st.one_of(TEXT, NICE), "secret": st.one_of(TEXT, NICE).map(lambda x: "S3c" + x)}), quick=1500, thorough=20000)
def given_credentials(case, t):
    """Credentials that the caller gives for one request are used for that one, in the client's name, and for nothing else."""
    with World() as w:
        op = OP(w, 0)
        op.secret = case["secret"]
        rh = handler({op.issuer: client_conf(op, client_id=case["cid"], secret=case["secret"])})
        r = rh.begin(op.issuer)
        lg, resp = op.authorize(r["url"])
        rh.finalize(op.issuer, dict(resp))
        svc = rh.issuer2rp[op.issuer].client_get("service", case["svc"])
        basic = case["m"] == "client_secret_basic"
        args, kw = {}, {}
        if case["arg_secret"]:
            args["client_secret"] = case["arg_secret"]
        if basic:
            kw.update({k: case[k] for k in ("user", "password") if case[k]})
        else:
            if case["arg_cid"]:
                args["client_id"] = case["arg_cid"]

        def build(args, kw):
            info = svc.get_request_parameters(request_args=dict(args), authn_method=case["m"], state=r["state"], request_body_type=case["ctype"], **kw)
            form = json.loads(info["body"]) if case["ctype"] == "json" else single(query_of("https://x/?" + info["body"]))
            return info, form

        def compare(info, form, user, passwd):
            auth = info["headers"].get("Authorization")
            if basic:
                check(auth is not None and auth.startswith("Basic "), "Authorization header {!r}", auth)
                u, _, p = base64.b64decode(auth[6:], validate=True).decode("utf-8").partition(":")
                eq((unquote_plus(u), unquote_plus(p)), (user, passwd), "credentials in the header")
                check("client_secret" not in form, "the secret is sent twice: {!r}", form)
            else:
                check(auth is None, "Authorization header {!r}", auth)
                eq((form.get("client_id"), form.get("client_secret")), (user, passwd), "credentials in the body")
            check(passwd not in info["url"], "secret in the URL {}", info["url"])
        if basic:
            compare(*build(args, kw), case["user"] or case["cid"], case["password"] or case["arg_secret"] or case["secret"])
        else:
            compare(*build(args, kw), case["cid"], case["arg_secret"] or case["secret"])
        compare(*build({}, {}), case["cid"], case["secret"])
        if args or kw:
            t.nontriv("given:" + ",".join(sorted(list(args) + list(kw))))
        t.label(case["m"])


UNKNOWN = st.one_of(st.sampled_from(["client_secret", "basic", "Client_Secret_Basic", "client_secret_basic ", "tls_client_auth", "bearer", "jwt", "client_secret_jwt,private_key_jwt"]),
                    st.text(min_size=1, max_size=12))
KNOWN = {"client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt", "bearer_header", "bearer_body", "none"}


@test(st.fixed_dictionaries({"m": UNKNOWN, "how": st.sampled_from(["behaviour", "arg", "conf", "factory"]), "svc": st.sampled_from(["accesstoken", "refresh_token", "userinfo"])}),
      quick=600, thorough=5000)
def unknown_method(case, t):
    from oidcrp.client_auth import factory
    if case["m"] in KNOWN:
        return
    with World() as w:
        op = OP(w, 0)
        conf = client_conf(op)
        if case["how"] == "factory":
            check(not attempt(factory, case["m"]).ok, "method {!r} accepted", case["m"])
            return
        if case["how"] == "behaviour":
            conf["behaviour"]["token_endpoint_auth_method"] = case["m"]
        if case["how"] == "conf":
            from op import services
            s = services()
            name = {"accesstoken": "access_token", "refresh_token": "refresh_access_token"}.get(case["svc"], case["svc"])
            s[name]["kwargs"] = {"conf": {"default_authn_method": case["m"]}}
            conf["services"] = s
            del conf["behaviour"]["token_endpoint_auth_method"]
        rh = handler({op.issuer: conf})
        r = rh.begin(op.issuer)
        lg, resp = op.authorize(r["url"])
        cl = rh.issuer2rp[op.issuer]
        mark = len(w.log)
        svc = "accesstoken" if case["how"] == "behaviour" else case["svc"]
        if svc == "accesstoken":
            cl.client_get("service", "authorization").update_service_context(
                cl.client_get("service", "authorization").response_cls(**resp), key=r["state"])
        else:
            if case["how"] == "conf":
                cl.client_get("service", "accesstoken").default_authn_method = "client_secret_basic"
            attempt(rh.finalize, op.issuer, dict(resp))
            mark = len(w.log)
        kw = {"authn_method": case["m"]} if case["how"] == "arg" else {}
        path = "/userinfo" if svc == "userinfo" else "/token"
        out = attempt(cl.do_request, svc, request_args={"state": r["state"]}, state=r["state"], **kw)
        check(not out.ok and not w.since(mark, op.netloc, path), "method {!r} was not refused: {!r}", case["m"], out)
        t.nontriv(case["how"], svc)
