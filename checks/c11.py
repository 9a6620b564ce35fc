"""C11: A request object conveys exactly the authorization request."""
import base64
import hashlib
import json
import os
import shutil
import tempfile
import time

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar
from hypothesis import strategies as st
from oidcmsg.oidc import AuthorizationRequest

import world as W
from op import OP, World, client_conf, ctx, handler, query_of, response, single
from vt import attempt, check, eq, test

RULE = ("Case = request arguments (caller, configured), response type, signing algorithm and where it is configured, encryption, way of passing (value, reference, registered reference, "
        "pushed as JWS or urlencoded, strict or lax) and several requests in a row; the simulated provider dereferences, decrypts and verifies the object and compares it with the plain "
        "request computed from the inputs and with the session's record. Non-trivial: an object was obtained and verified.")
ASSUMPTIONS = ["signatures and encryption are processed with cryptojwt", "values are compared as JSON or as the space separated text the parameter stands for"]

KEYS = {"RS256": "rsa", "RS512": "rsa", "PS256": "rsa", "ES256": "ec256", "ES384": "ec384"}
ALGS = ["RS256", "RS512", "PS256", "ES256", "ES384", "HS256", "HS512", "none"]
ENC = [("RSA-OAEP", "A128CBC-HS256"), ("RSA-OAEP-256", "A256GCM"), ("ECDH-ES", "A128GCM"), ("ECDH-ES+A128KW", "A256CBC-HS512")]
SECRET = "a-very-long-client-secret-" + "z" * 40

VAL = st.text(alphabet=st.one_of(st.sampled_from("abcXYZ019-_.~:%+/=&?;@ #\"'\\<>{}"), st.sampled_from("åβ€😀")), min_size=1, max_size=12)
REQ = st.fixed_dictionaries({}, optional={
    "login_hint": VAL, "display": st.sampled_from(["page", "popup"]), "prompt": st.sampled_from([["login"], ["login", "consent"], "none", ["none"]]), "max_age": st.integers(0, 10000),
    "acr_values": st.lists(st.sampled_from(["1", "urn:x", "loa2"]), min_size=1, max_size=3, unique=True), "ui_locales": st.just(["en", "sv"]),
    "scope": st.sampled_from([["openid"], ["openid", "email"], ["email", "openid", "offline_access"]]), "id_token_hint": VAL,
    "claims": st.sampled_from([{"id_token": {"acr": None}}, {"userinfo": {"email": {"essential": True}}}]),
    "x_extra": VAL, "response_mode": st.sampled_from(["query", "fragment"])})


@st.composite
def cases(draw):
    how = draw(st.sampled_from(["value", "value", "reference", "registered", "pushed", "pushed"]))
    return {"how": how, "rt": draw(st.sampled_from(["code", "code", "id_token", "code id_token", "code id_token token", "id_token token"])),
            "alg": draw(st.sampled_from(ALGS)) if how != "pushed" else draw(st.sampled_from(ALGS[:-1])),
            "alg_from": draw(st.sampled_from(["conf", "arg", "arg2", "default", "both"])),
            "enc": draw(st.one_of(st.none(), st.none(), st.sampled_from(ENC))) if how != "pushed" else None, "enc_from": draw(st.sampled_from(["conf", "arg"])),
            "enc_kid": draw(st.sampled_from([None, None, "op0", "op1"])), "enc_half": draw(st.sampled_from([None] * 8 + ["absent", "empty", "no key", "unknown key"])),
            "body": draw(st.sampled_from(["jws", "jws", "urlencoded"])), "merge": draw(st.sampled_from(["lax", "strict"])), "status": draw(st.sampled_from([200, 201])),
            "conf_req": draw(st.one_of(st.just({}), REQ)), "reqs": draw(st.lists(REQ, min_size=1, max_size=3)), "slash": draw(st.booleans()), "pkce": draw(st.booleans()),
            "lifetime": draw(st.sampled_from([None, None, 300])), "expires_in": draw(st.sampled_from([None, None, 120, "90"])), "service": draw(st.sampled_from([False, False, True]))}


def norm(name, v):
    """A parameter value as comparable: lists are the space separated text, JSON stays JSON."""
    if isinstance(v, list):
        return " ".join(str(x) for x in v)
    if name in ("claims",) and isinstance(v, str):
        return json.loads(v)
    if isinstance(v, dict):
        return v
    return str(v)


def prune(d):
    return {k: norm(k, v) for k, v in d.items()}


def b64d(s):
    return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))


def read_object(tok, case, alg, enc, op):
    """What the provider does: decrypt, verify, return the claims."""
    if enc:
        check(tok.count(".") == 4, "object is not encrypted: {}", tok[:60])
        hdr = json.loads(b64d(tok.split(".")[0]))
        eq((hdr.get("alg"), hdr.get("enc")), tuple(enc), "encryption algorithms")
        name = "_ecenc" if enc[0].startswith("ECDH") else "_rsaenc"
        mine = [W.key(o + name) for o in ([case["enc_kid"]] if case.get("enc_kid") else ["op0"])]
        k = mine[0]
        if case.get("enc_kid"):
            eq(hdr.get("kid"), k.kid, "key the object is encrypted for")
        tok = jwe_factory(tok, alg=enc[0], enc=enc[1]).decrypt(tok, [k])
        tok = tok.decode() if isinstance(tok, bytes) else tok
    check(tok.count(".") == 2, "object is not a JWS: {}", tok[:60])
    h, p, s = tok.split(".")
    hdr = json.loads(b64d(h))
    eq(hdr.get("alg"), alg, "signing algorithm")
    if alg == "none":
        eq(s, "", "signature")
    elif alg.startswith("HS"):
        import hmac
        eq(b64d(s), hmac.new(SECRET.encode(), (h + "." + p).encode(), {"HS256": hashlib.sha256, "HS512": hashlib.sha512}[alg]).digest(), "signature")
    else:
        pub = W.key_from_jwk_dict(W.key("rp_" + KEYS[alg]).serialize(private=False))
        try:
            JWS(alg=alg).verify_compact(tok, [pub])
        except Exception as err:
            check(False, "object does not verify: {!r}", err)
    return json.loads(b64d(p))


@test(cases(), quick=5000, thorough=60000)
def objects(case, t):
    tmp = tempfile.mkdtemp(prefix="vt-c11-")
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        with World() as w:
            run(case, t, w, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def run(case, t, w, tmp):
    how, alg, enc = case["how"], case["alg"], case["enc"]
    op = OP(w, 0)
    op.meta = {"request_parameter_supported": True, "request_uri_parameter_supported": True, "pushed_authorization_request_endpoint": op.base + "/par"}
    pushed = []

    def par(req):
        ref = "urn:ietf:params:oauth:request_uri:%d" % len(pushed)
        pushed.append((ref, req))
        return response(case["status"], {"request_uri": ref, "expires_in": 60})
    op.par_hook = par
    base = "https://rp.example.com" + ("/" if case["slash"] else "")
    conf = client_conf(op, case["rt"], client_id="the-client", secret=SECRET)
    b = conf["behaviour"]
    beh = {}
    if how != "pushed":
        beh["request_param"] = "request" if how == "value" else "request_uri"
        if case["alg_from"] in ("conf", "both"):
            b["request_object_signing_alg"] = alg if case["alg_from"] == "conf" else "RS512"
        if case["alg_from"] in ("arg", "both"):
            beh["request_object_signing_alg"] = alg
        elif case["alg_from"] == "arg2":
            beh["algorithm"] = alg
        elif case["alg_from"] == "default":
            alg = "RS256"
        if enc:
            dst = b if case["enc_from"] == "conf" else beh
            dst["request_object_encryption_alg"], dst["request_object_encryption_enc"] = enc
            if case.get("enc_half") == "absent":
                del dst["request_object_encryption_enc"]
            elif case.get("enc_half") == "empty":
                dst["request_object_encryption_enc"] = ""
            elif case.get("enc_half") == "no key":
                op.jwks_hook = lambda req: response(200, W.public_jwks("op0_rsa", "op0_ec256"))
            elif case.get("enc_half") == "unknown key":
                beh["enc_kid"] = "of-nobody"
            elif case.get("enc_kid"):
                op.jwks_hook = lambda req: response(200, W.public_jwks("op1_rsaenc", "op1_ecenc", "op0_rsa", "op0_ec256", "op0_rsaenc", "op0_ecenc"))
                beh["enc_kid"] = W.key(case["enc_kid"] + ("_ecenc" if enc[0].startswith("ECDH") else "_rsaenc")).kid
        if case["lifetime"]:
            beh["lifetime"] = case["lifetime"]
        if case.get("expires_in"):
            beh["expires_in"] = case["expires_in"]
    else:
        conf["add_ons"] = {"pushed_authorization": {"function": "oidcrp.oauth2.add_on.pushed_authorization.add_support",
                                                    "kwargs": {"body_format": case["body"], "signing_algorithm": alg, "merge_rule": case["merge"]}}}
    if case["pkce"]:
        conf.setdefault("add_ons", {})
        conf["add_ons"] = dict({"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support", "kwargs": {"code_challenge_length": 64, "code_challenge_method": "S256"}}}, **conf["add_ons"])
    if case["conf_req"]:
        conf["request_args"] = json.loads(json.dumps(case["conf_req"]))
    kj = KeyJar()
    ks = {"keys": [W.key("rp_" + k).serialize(private=True) for k in ("rsa", "ec256", "ec384")]}
    kj.import_jwks(ks, "")
    kj.import_jwks(ks, base)
    rh = handler({op.issuer: conf}, keyjar=kj, base_url=base)
    cl = rh.client_setup(op.issuer)
    c = ctx(cl)
    if how == "registered":
        c.registration_response = {"request_uris": [c.base_url.rstrip("/") + "/req/obj.jwt"]}
    refs = set()
    texts = {}
    for args in case["reqs"]:
        mark = len(w.log)
        if case["service"] and not (enc and case.get("enc_half")) and how in ("value", "reference", "registered"):
            # the service level interface
            state = c.state.create_state(op.issuer)
            plain = dict({"scope": ["openid"], "response_type": case["rt"], "nonce": "n-" + state}, **args)
            kw = {k: v for k, v in beh.items() if k in ("request_object_signing_alg", "algorithm")}
            kw["request_method"] = "value" if how == "value" else "reference"
            more = {k: v for k, v in beh.items() if k in ("request_object_encryption_alg", "request_object_encryption_enc", "lifetime", "enc_kid", "expires_in")}
            info = cl.client_get("service", "authorization").get_request_parameters(request_args=dict(json.loads(json.dumps(plain)), state=state),
                                                                                   behaviour_args=more, **kw)
            r = {"url": info["url"], "state": state}
            t.label("service level")
        else:
            plain = dict({"scope": ["openid"], "response_type": case["rt"]}, **case["conf_req"])
            plain.update(args)
            if enc and case.get("enc_half"):
                out = attempt(rh.begin, op.issuer, req_args=json.loads(json.dumps(args)), behaviour_args=dict(beh))
                check(not out.ok, "an object that can't be encrypted as wanted ({}) is sent: {!r}", case["enc_half"], out)
                t.nontriv("enc:" + case["enc_half"])
                return
            r = rh.begin(op.issuer, req_args=json.loads(json.dumps(args)), behaviour_args=dict(beh))
        q = single(query_of(r["url"]))
        eq(r["url"].split("?")[0], op.ep("authorization_endpoint"), "endpoint")
        now = time.time()
        if how == "pushed":
            reqs = w.since(mark, op.netloc, "/par")
            eq(len(reqs), 1, "pushed requests")
            ref = q.get("request_uri")
            eq(ref, pushed[-1][0], "reference")
            form = single(reqs[0].form or reqs[0].query)
            if case["body"] == "jws":
                obj = read_object(form["request"], case, alg, None, op)
                for k, v in form.items():
                    if k != "request":
                        eq(norm(k, v), norm(k, obj.get(k)), "pushed parameter " + k)
            else:
                obj = form
        elif how == "value":
            tok = q.get("request")
            check(isinstance(tok, str) and "request_uri" not in q, "object in {!r}", sorted(q))
            obj = read_object(tok, case, alg, enc, op)
        else:
            ref = q.get("request_uri")
            check(isinstance(ref, str) and "request" not in q, "reference in {!r}", sorted(q))
            check(ref.startswith(c.base_url), "reference {!r}", ref)
            path = ref.split("#")[0][len(c.base_url):].lstrip("/")
            check(os.path.exists(os.path.join(tmp, path)), "reference {!r} resolves to nothing", ref)
            with open(os.path.join(tmp, path)) as f:
                tok = f.read()
            obj = read_object(tok, case, alg, enc, op)
            if how == "registered":
                eq(ref.split("#")[0], c.registration_response["request_uris"][0], "registered reference")
            else:
                texts[path] = tok
                for p, x in texts.items():
                    with open(os.path.join(tmp, p)) as f:
                        eq(f.read(), x, "object of an earlier request")
        if how != "value":
            check(ref not in refs, "reference {!r} used twice", ref)
            refs.add(ref)
        # the object
        signed = how != "pushed" or case["body"] == "jws"
        extra = {"iss", "aud", "iat", "jti", "exp", "nbf"} if signed else set()
        if signed:
            eq(obj.get("iss"), "the-client", "issuer of the object")
            aud = obj.get("aud")
            eq([aud] if isinstance(aud, str) else aud, [op.issuer], "audience of the object")
            check(abs(obj.get("iat", now) - now) < 30, "issued at {}", obj.get("iat"))
            if case["lifetime"] and how != "pushed":
                eq(obj.get("exp"), obj.get("iat", 0) + case["lifetime"], "expiry of the object")
            elif case.get("expires_in") and how != "pushed":
                check(abs(obj.get("exp", 0) - obj["iat"] - int(case["expires_in"])) <= 5, "expiry of the object: {!r}, issued at {!r}, wanted {!r}", obj.get("exp"), obj["iat"], case["expires_in"])
            elif how != "pushed":
                check("exp" not in obj, "the object expires")
        obj = {k: v for k, v in obj.items() if k not in extra}
        rec = c.state.get_item(AuthorizationRequest, 'auth_request', r['state']).to_dict()
        eq(prune(obj), prune(rec), "object and record of the session")
        want = dict(plain, client_id="the-client", state=r["state"])
        if "offline_access" in want["scope"] and "prompt" not in want:
            want["prompt"] = "consent"
        got = {k: v for k, v in obj.items() if k not in ("nonce", "redirect_uri", "code_challenge", "code_challenge_method") or k in want}
        eq(prune(got), prune(want), "object and request")
        check(isinstance(obj.get("nonce"), str) and len(obj["nonce"]) >= 16, "nonce {!r}", obj.get("nonce"))
        check(obj.get("redirect_uri") in conf["redirect_uris"], "redirect_uri {!r}", obj.get("redirect_uri"))
        eq("code_challenge" in obj, bool(case["pkce"]), "challenge in the object")
        # the rest of the URL
        rest = {k: v for k, v in q.items() if k not in ("request", "request_uri")}
        need = {"client_id", "response_type", "scope", "redirect_uri"} if how != "pushed" else {"client_id"} if case["merge"] == "strict" else {"client_id", "response_type"}
        check(need <= set(rest), "parameters {} beside the object", sorted(rest))
        check(set(rest) <= (need if how == "pushed" and case["merge"] == "strict" else {"client_id", "response_type", "scope", "redirect_uri"}), "parameters {} beside the object", sorted(rest))
        for k, v in rest.items():
            eq(norm(k, v), norm(k, obj.get(k)), "parameter " + k)
        # the login goes on with it
        lg, resp = op.authorize_params({k: norm(k, v) if k != "claims" else v for k, v in obj.items()})
        out = attempt(rh.finalize, op.issuer, dict(resp))
        check(out.ok and "error" not in out.value, "login failed: {!r}", out)
        t.nontriv("how:" + how, "alg:" + alg, "enc:" + (enc[0] if enc else "no"), "merge:" + case["merge"] if how == "pushed" else "")
