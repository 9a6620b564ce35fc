"""C33: The keys of the RP and those configured for providers are used for what they are for."""
import copy
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

import world as W
from cryptography.hazmat.primitives import serialization as S
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS, factory
from cryptojwt.key_jar import init_key_jar
from op import OP, World, client_conf, ctx, handler, response, services, single, query_of
from vt import attempt, check, eq, test

RULE = ("own: case = where the RP has its keys (the default files, configured files, given key jar, files of a client), which keys, where the RP is, static and dynamic clients, and a history of logins (with signed client assertions and request objects), restarts, losses of the published file. The provider only has what was announced. "
        "provider: case = how the keys of two providers are configured (URL or file; JWKS or PEM; for the client or in the provider information), who signed the ID Token and the user info with which key and key identifier, and rotations. Non-trivial: something signed was verified by the other side.")
ASSUMPTIONS = ["the RP's web server serves the files of the working directory below its base URL", "keys in PEM files have no identifier, cryptojwt finds them for tokens without one (allow missing_kid)", "a provider keeps the keys it got when a client with inline keys was registered"]

PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k", "priv_key"}
BASES = ["https://rp.example.com", "https://rp.example.com", "https://rp.example.com/", "https://rp.example.com/app", "https://rp.example.com/app/"]
DEFS = {"rsa": [{"type": "RSA", "use": ["sig"]}], "ec": [{"type": "EC", "crv": "P-256", "use": ["sig"]}],
        "both": [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}],
        "ec384": [{"type": "EC", "crv": "P-384", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}],
        "two": [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}, {"type": "RSA", "use": ["sig"]}]}


def scratch(f):
    """run in an empty directory"""
    def g(c, t):
        here = os.getcwd()
        d = tempfile.mkdtemp(prefix="keys", dir=here)
        os.chdir(d)
        try:
            return f(c, t)
        finally:
            os.chdir(here)
            shutil.rmtree(d)
    g.__name__ = f.__name__
    return g


@st.composite
def own_cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    src = d("default", "paths", "paths", "inline")
    defs = "both" if src == "default" else d(*sorted(DEFS))
    algs = [a for a, t in (("RS256", "rsa both two"), ("PS256", "rsa both two"), ("ES256", "ec both two ec384")) if defs in t.split()]
    cl = [{"dyn": d(True, False), "auth": d("private_key_jwt", "private_key_jwt", "client_secret_basic"), "auth_alg": d(*algs), "obj": d(None, *algs), "how": d("request", "request_uri")} for _ in range(draw(st.integers(1, 2)))]
    op = st.one_of(st.tuples(st.just("login"), st.integers(0, 1)), st.tuples(st.just("login"), st.integers(0, 1)), st.just(("restart",)), st.just(("lose",)))
    return {"src": src, "defs": defs, "base": d(*BASES), "paths": d(["private/jwks.json", "static/jwks.json"], ["keys/deep/own.json", "pub/k.json"], ["own.json", "jwks.json"]), "clients": cl,
            "ops": draw(st.lists(op, min_size=1, max_size=6))}


def public_only(jwks, what):
    check(isinstance(jwks, dict) and jwks.get("keys"), "{}: no keys: {!r}", what, jwks)
    for k in jwks["keys"]:
        check(not PRIVATE & set(k) and k.get("kty") in ("RSA", "EC"), "{}: private key published: members {!r}", what, sorted(k))


def verified(token, jwks, alg, what):
    """the payload of a token that verifies with the announced keys alone"""
    hdr = factory(token).jwt.headers
    eq(hdr.get("alg"), alg, what + ": algorithm")
    keys = [k for k in jwks["keys"] if not hdr.get("kid") or k.get("kid") == hdr["kid"]]
    check(keys, "{}: signed with a key ({!r}) that isn't among those announced ({!r})", what, hdr.get("kid"), [k.get("kid") for k in jwks["keys"]])
    out = attempt(JWS(alg=alg).verify_compact, token, [key_from_jwk_dict(dict(k)) for k in keys])
    check(out.ok, "{}: doesn't verify with the announced keys: {!r}", what, out)
    return out.value


class Host:
    """the RP's working directory and web server, and what the providers know about it"""

    def __init__(self, c, w):
        self.c, self.w = c, w
        self.private, self.public = ["private/jwks.json", "static/jwks.json"] if c["src"] == "default" else c["paths"]
        w.serve("rp.example.com", self.serve)
        self.given = None
        self.rph = None
        self.registered = {}       # client id -> announced keys

    def serve(self, req):
        p = req.path
        root = c_path(self.c["base"])
        if not p.startswith(root + "/"):
            return None
        fn = p[len(root) + 1:]
        if os.path.isfile(fn):
            with open(fn) as f:
                return response(200, f.read())
        return None

    def start(self, confs):
        from oidcrp.rp_handler import RPHandler
        c, kw = self.c, {}
        if c["src"] == "paths":
            kj = init_key_jar(private_path=self.private, public_path=self.public, key_defs=DEFS[c["defs"]], read_only=False, issuer_id="")
            kj.import_jwks_as_json(kj.export_jwks_as_json(True, ""), c["base"])
            kw = {"keyjar": kj, "jwks_path": self.public}
        elif c["src"] == "inline":
            if self.given is None:
                self.given = init_key_jar(key_defs=DEFS[c["defs"]], issuer_id="")
                self.given = self.given.export_jwks(True, "")
            from cryptojwt.key_jar import KeyJar
            kj = KeyJar()
            kj.import_jwks(json.loads(json.dumps(self.given)), "")
            kj.import_jwks(json.loads(json.dumps(self.given)), c["base"])
            kw = {"keyjar": kj}
        self.rph = RPHandler(c["base"], client_configs=confs, services=services(), hash_seed="always the same", **kw)
        if c["src"] == "inline":
            eq(self.rph.jwks_uri, "", "key location")
        else:
            eq(self.rph.jwks_uri, c["base"].rstrip("/") + "/" + self.public, "key location")

    def announced(self, iss):
        if iss:
            jwks = iss
            if isinstance(jwks, str):
                import requests
                r = requests.get(iss)
                eq(r.status_code, 200, "published keys at " + iss)
                jwks = r.json()
            public_only(jwks, "announced")
            return jwks
        return {"keys": []}


def c_path(base):
    from urllib.parse import urlsplit
    return urlsplit(base).path.rstrip("/")


@test(own_cases(), quick=110, thorough=1500)
@scratch
def own(c, t):
    with World() as w:
        host = Host(c, w)
        ops, confs = [], {}
        for i, cl in enumerate(c["clients"]):
            o = OP(w, i, meta={"request_parameter_supported": True, "request_uri_parameter_supported": True, "token_endpoint_auth_signing_alg_values_supported": ["RS256", "ES256", "PS256", "HS256"],
                               "request_object_signing_alg_values_supported": ["RS256", "ES256", "PS256", "none"]})
            conf = client_conf(o, "code", dynamic=cl["dyn"])
            b = conf["client_preferences" if cl["dyn"] else "behaviour"]
            b["token_endpoint_auth_method"] = cl["auth"]
            if cl["auth"] == "private_key_jwt":
                b["token_endpoint_auth_signing_alg"] = cl["auth_alg"]
            if cl["obj"]:
                b["request_object_signing_alg"] = cl["obj"]
                if cl["how"] == "request_uri" and cl["dyn"]:
                    conf["request_uris"] = [c["base"].rstrip("/") + "/requests/%d.jwt" % i]
            confs["op%d" % i] = conf
            ops.append(o)

            def reg(req, o=o):
                r = o.register(req)
                body = json.loads(req.body)
                check(bool(body.get("jwks")) != bool(body.get("jwks_uri")), "registration announces {!r} and {!r}", body.get("jwks"), body.get("jwks_uri"))
                if c["src"] == "inline":
                    check(body.get("jwks"), "keys not announced")
                o.keys = body.get("jwks") or body["jwks_uri"]
                return r

            o.reg_hook = reg
            o.keys = None

        def token(req, o, cl):
            p = req.params()
            if cl["auth"] == "private_key_jwt":
                payload = verified(p["client_assertion"], host.announced(o.keys), cl["auth_alg"], "client assertion")
                eq(payload["iss"], payload["sub"], "assertion")
                o.verified += 1
            return o.token(req)

        first = None
        pristine = json.dumps(confs, sort_keys=True)
        did = 0
        for step in [("restart",)] + [tuple(x) for x in c["ops"]]:
            if step[0] == "restart":
                host.start(json.loads(pristine))
                for o, cl in zip(ops, c["clients"]):
                    o.token_hook = lambda req, o=o, cl=cl: token(req, o, cl)
                    o.verified = 0
                    if not cl["dyn"]:
                        # announced by hand
                        o.keys = o.keys or host.rph.jwks_uri or host.rph.jwks
                if c["src"] != "inline":
                    jwks = host.announced(host.rph.jwks_uri)
                    with open(host.private) as f:
                        eq(sorted(k["kid"] for k in json.load(f)["keys"]), sorted(k["kid"] for k in jwks["keys"]), "own and published keys")
                else:
                    jwks = host.announced(host.rph.jwks)
                eq(len(jwks["keys"]), len(DEFS[c["defs"]]), "number of keys")
                if first is not None:
                    eq(sorted(k["kid"] for k in jwks["keys"]), first, "keys after a restart")
                first = sorted(k["kid"] for k in jwks["keys"])
            elif step[0] == "lose":
                if c["src"] != "inline":
                    os.unlink(host.public)
                    host.start(json.loads(pristine))
                    for o, cl in zip(ops, c["clients"]):
                        o.token_hook = lambda req, o=o, cl=cl: token(req, o, cl)
                    eq(sorted(k["kid"] for k in host.announced(host.rph.jwks_uri)["keys"]), first, "keys after the published file was lost")
            else:
                i = step[1] % len(ops)
                o, cl = ops[i], c["clients"][i]
                how = "request_uri" if cl["how"] == "request_uri" and cl["dyn"] else "request"
                out = attempt(host.rph.begin, "op%d" % i, behaviour_args={"request_param": how} if cl["obj"] else None)
                check(out.ok, "login {}: {!r}", i, out)
                params = single(query_of(out.value["url"]))
                if cl["obj"]:
                    if how == "request":
                        obj = params.get("request")
                    else:
                        import requests
                        check(params.get("request_uri"), "no request_uri: {!r}", params)
                        r = requests.get(params["request_uri"])
                        eq(r.status_code, 200, "request object at " + params["request_uri"])
                        obj = r.text
                    check(obj, "no request object: {!r}", params)
                    payload = verified(obj, host.announced(o.keys), cl["obj"], "request object")
                    eq(payload["state"], out.value["state"], "state")
                    params = dict(payload)
                    did += 1
                lg, resp = o.authorize_params(params)
                n = getattr(o, "verified", 0)
                out = attempt(host.rph.finalize, o.issuer, resp)
                check(out.ok and "error" not in out.value, "login {}: {!r}", i, out)
                eq(o.verified - n, 1 if cl["auth"] == "private_key_jwt" else 0, "client assertions")
                did += o.verified - n
        for r in w.log:
            for m in ('"d"', "%22d%22", "PRIVATE"):
                b = r.body.decode() if isinstance(r.body, bytes) else r.body
                check(m not in (b or ""), "private key sent to {}", r.url)
        t.nontriv(did > 0)


# -- keys in files of one client -----------------------------------------------------------------------------------------------------------------------

def pem(name, private):
    k = W.key(name)
    fn = "%s-%s.pem" % (name, "prv" if private else "pub")
    if private:
        b = k.private_key().private_bytes(S.Encoding.PEM, S.PrivateFormat.PKCS8, S.NoEncryption())
    else:
        b = k.public_key().public_bytes(S.Encoding.PEM, S.PublicFormat.SubjectPublicKeyInfo)
    with open(fn, "wb") as f:
        f.write(b)
    return fn


@st.composite
def file_cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    names = draw(st.lists(st.sampled_from(["rp_rsa", "op2_rsa", "op1_rsa", "evil_rsa"]), min_size=1, max_size=3, unique=True))
    return {"names": names, "attr": d("keys", "key_conf"), "url": d(False, True), "kj": d(False, False, True), "oct": d(True, False), "alg": d("RS256", "PS256", "RS512"), "signer": d("own", "own", "other", "evil")}


@test(file_cases(), quick=250, thorough=4000)
@scratch
def client_files(c, t):
    """keys of a client itself in PEM files and those of its provider at a URL"""
    from oidcrp.oidc import RP
    with World() as w:
        o = OP(w, 0)
        spec = {"file": {"rsa": [pem(n, True) for n in c["names"]]}}
        if c["url"]:
            spec["url"] = {o.issuer: o.base + "/jwks.json"}
        conf = client_conf(o, "code", **{c["attr"]: spec})
        conf["base_url"] = "https://rp.example.com"
        if not c["oct"]:
            del conf["client_secret"]
        conf["behaviour"].update(token_endpoint_auth_method="private_key_jwt", token_endpoint_auth_signing_alg=c["alg"])
        pi = o.metadata()
        del pi["jwks_uri"]
        conf["provider_info"] = pi
        before = json.dumps(conf, sort_keys=True)
        kw = {"keyjar": W.keyjar_of("op0")} if c["kj"] else {}
        out = attempt(RP, config=conf, services=services(), **kw)
        check(out.ok, "client: {!r}", out)
        eq(json.dumps(conf, sort_keys=True), before, "configuration")
        client = out.value
        own_keys = [W.key(n) for n in c["names"]]
        from cryptojwt.jwk.rsa import RSAKey
        mine = ctx(client).keyjar.get_signing_key("RSA", "")
        for k in own_keys:
            check(any(isinstance(x, RSAKey) and x == k and x.has_private_key() for x in mine) or any(x.n == k.n for x in map(pub, mine)), "key of a file isn't among the own keys")
        auth = client.client_get("service", "accesstoken")
        auth.endpoint = o.ep("token_endpoint")
        st_ = ctx(client).state.create_state(o.issuer)
        from oidcmsg.oidc import AuthorizationRequest, AuthorizationResponse
        ctx(client).state.store_item(AuthorizationRequest(redirect_uri="https://rp.example.com/cb0", nonce="n0", client_id="client-0", response_type="code", scope=["openid"]), "auth_request", st_)
        ctx(client).state.store_item(AuthorizationResponse(code="c", state=st_), "auth_response", st_)
        info = attempt(auth.get_request_parameters, request_args={"state": st_}, state=st_, authn_method="private_key_jwt")
        check(info.ok, "token request: {!r}", info)
        tok = info.value["request"]["client_assertion"]
        out = attempt(JWS(alg=c["alg"]).verify_compact, tok, [pub(k) for k in own_keys] + ([W.key("op0_rsa")] if c["kj"] else []))
        check(out.ok, "assertion doesn't verify with the client's keys: {!r}", out)
        t.nontriv(True)


def pub(k):
    d = k.serialize(private=False)
    return key_from_jwk_dict({x: d[x] for x in ("kty", "n", "e")})


# -- the keys of providers ----------------------------------------------------------------------------------------------------------------------------

HOWS = ["conf_url", "conf_url_old", "pi_url", "pi_jwks", "pi_rsa"]


@st.composite
def provider_cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    step = st.fixed_dictionaries({"i": st.integers(0, 1), "signer": st.sampled_from(["own", "own", "own", "other", "evil", "unpublished", "rp"]), "kid": st.sampled_from(["yes", "yes", "no", "own", "other"]), "alg": st.sampled_from(["RS256", "RS256", "ES256"]),
                                  "what": st.sampled_from(["id_token", "id_token", "userinfo"]), "rotate": st.sampled_from([False, False, False, True])})
    return {"how": [d(*HOWS), d(*HOWS)], "allow": d(True, True, False), "steps": draw(st.lists(step, min_size=1, max_size=4)), "params": d(None, {"verify": "/ca.pem"}, {"verify": False, "timeout": 3}), "url_at": d("issuer", "issuer", "elsewhere"), "jar": d(True, False)}


@test(provider_cases(), quick=400, thorough=6000)
@scratch
def provider(c, t):
    with World() as w:
        ops, confs = [], {}
        for i in (0, 1):
            o = OP(w, i)
            o.kset = ["op%d_rsa" % i, "op%d_ec256" % i]
            where = "https://op%d.example.org" % i if c["url_at"] == "issuer" else "https://keys.example.net"
            o.jurl = where + "/certs%d.json" % i
            pi = o.metadata()
            del pi["jwks_uri"]
            how, extra = c["how"][i], {}
            if how.startswith("conf_url"):
                extra["keys" if how == "conf_url" else "key_conf"] = {"url": {o.issuer: o.jurl}}
            elif how == "pi_url":
                pi["keys"] = {"url": {o.issuer: o.jurl}}
            elif how == "pi_jwks":
                with open("op%d.json" % i, "w") as f:
                    json.dump(W.public_jwks(*o.kset), f)
                pi["keys"] = {"file": {"jwks": "op%d.json" % i}}
            else:
                pi["keys"] = {"file": {"rsa": pem("op%d_rsa" % i, False)}}
            confs["op%d" % i] = client_conf(o, "code", provider_info=pi, **extra)
            if c["allow"]:
                confs["op%d" % i]["allow"] = {"missing_kid": True}
            ops.append(o)
        fetched = []

        def serve(req):
            for o in ops:
                if o.jurl.endswith(req.path):
                    fetched.append(req)
                    return response(200, W.public_jwks(*o.kset))
            return None

        for o in ops:
            h = o.handle
            w.serve("op%d.example.org" % o.i, lambda req, h=h: serve(req) or h(req))
        w.serve("keys.example.net", serve)
        kw = {"httpc_params": dict(c["params"])} if c["params"] else {}
        before = json.dumps(confs, sort_keys=True)
        if c["jar"]:
            # as in the example
            kw["keyjar"] = W.keyjar_of("rp")
            if c["params"]:
                kw["keyjar"].httpc_params = dict(c["params"])
            rph = handler(confs, **kw)
        else:
            from oidcrp.rp_handler import RPHandler
            os.mkdir("private")
            os.mkdir("static")
            with open("private/jwks.json", "w") as f:
                json.dump({"keys": [W.key("rp_rsa").serialize(private=True), W.key("rp_ec256").serialize(private=True)]}, f)
            rph = RPHandler("https://rp.example.com", confs, services=services(), hash_seed="the seed", **kw)
        used, stale = False, set()
        for n, s in enumerate(c["steps"]):
            o, other = ops[s["i"]], ops[1 - s["i"]]
            how = c["how"][s["i"]]
            if s["rotate"] and o.i == 0 and how in ("conf_url", "conf_url_old", "pi_url"):
                if o.kset[0] != "op2_rsa":
                    stale.add(o.i)
                o.kset = ["op2_rsa", "op2_ec256"]
            kn = {"RS256": 0, "ES256": 1}[s["alg"]]
            signer = {"own": o.kset[kn], "other": other.kset[kn], "evil": W.kname("evil", s["alg"]), "rp": W.kname("rp", s["alg"]), "unpublished": W.kname("op2", s["alg"])}[s["signer"]]
            k = copy.copy(W.key(signer))
            kid = {"yes": k.kid, "no": "", "own": W.key(o.kset[kn]).kid, "other": W.key(other.kset[kn]).kid}[s["kid"]]
            k.kid = kid
            begun = attempt(rph.begin, "op%d" % o.i)
            check(begun.ok, "login: {!r}", begun)
            begun = begun.value
            client = rph.issuer2rp[o.issuer]
            uis = s["what"] == "userinfo"
            ctx(client).registration_response = {"userinfo_signed_response_alg": s["alg"]} if uis else {}
            ctx(client).behaviour["id_token_signed_response_alg"] = "RS256" if uis else s["alg"]
            o.alg = "RS256" if uis else s["alg"]

            def sig(claims):
                return JWS(json.dumps(claims), alg=s["alg"]).sign_compact([k])

            if not uis:
                o.id_token = lambda lg, at=None, code=None, **e: sig(o.id_claims(lg, at, code, **e))
            else:
                def idt(lg, at=None, code=None, **e):
                    good = copy.copy(W.key(o.kset[0]))
                    if how == "pi_rsa":
                        good.kid = ""
                    return JWS(json.dumps(o.id_claims(lg, at, code, **e)), alg="RS256").sign_compact([good])
                o.id_token = idt
                o.userinfo_hook = lambda req: response(200, sig({"sub": "u1", "iss": o.issuer, "aud": ctx(client).client_id, "email": "x@y"}), "application/jwt")
                if how == "pi_rsa" and not c["allow"]:
                    continue
            lg, resp = o.authorize(begun["url"])
            out = attempt(rph.finalize, o.issuer, resp)
            if not uis:
                o.__dict__.pop("id_token", None)
            good = out.ok and "error" not in out.value
            o.userinfo_hook = None
            o.__dict__.pop("id_token", None)
            right = signer in o.kset and (how != "pi_rsa" or kn == 0)
            check(right or not good, "step {}: {} signed by {} (key id {}) accepted; the keys of {} are {}", n, s["what"], signer, s["kid"], o.issuer, o.kset)
            if how == "pi_rsa":
                must = right and kid == "" and c["allow"]
            else:
                must = right and (kid == W.key(signer).kid or (kid == "" and c["allow"] and o.i not in stale))
            if right and must:
                check(good, "step {}: {} signed by {} (key id {}) refused: {!r}", n, s["what"], signer, s["kid"], out)
            if good and right and kid == W.key(signer).kid:
                # an identifier that isn't known makes the RP fetch the keys anew; a token without one can't
                stale.discard(o.i)
            used = used or right
        for r in fetched:
            if c["params"]:
                eq(r.kwargs.get("verify"), c["params"]["verify"], "verify when keys are fetched")
            else:
                check(r.kwargs.get("verify"), "not verified when keys are fetched")
            if c["params"] and "timeout" in c["params"]:
                eq(r.kwargs.get("timeout"), c["params"]["timeout"], "timeout when keys are fetched")
        eq(json.dumps(confs, sort_keys=True), before, "configuration")
        t.nontriv(used)


# -- which of the own keys ---------------------------------------------------------------------------------------------------------------------------------

@st.composite
def pinned_cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    names = ["rp_rsa", "op0_rsa", "op1_rsa", "rp_ec256", "op0_ec256", "rp_ec384"]
    ks = draw(st.lists(st.sampled_from(names), min_size=1, max_size=5, unique=True))
    kids = draw(st.lists(st.sampled_from(["", "k", "k1", "k10", "K1", "k2", "a b"]), min_size=len(ks), max_size=len(ks), unique=True))
    return {"keys": [list(x) for x in zip(ks, kids)], "pin": d("arg", "context", "none"), "pinned": d(*(kids + ["k1", "k", "k100", "nobody"])), "alg": d("RS256", "ES256", "PS384"), "svc": d("accesstoken", "refresh_token"), "others": d(False, True)}


@test(pinned_cases(), quick=400, thorough=5000)
def pinned(c, t):
    """client assertions are signed with the key that was asked for"""
    from cryptojwt.key_jar import KeyJar
    from cryptojwt.key_bundle import KeyBundle
    from oidcrp.oidc import RP
    from oidcmsg.oidc import AccessTokenRequest
    with World() as w:
        o = OP(w, 0)
        kj = KeyJar()
        own = {}
        for n, kid in c["keys"]:
            k = copy.copy(W.key(n))
            k.kid = kid
            own[kid] = k
            kb = KeyBundle()
            kb.append(k)
            kj.add_kb("", kb)
        if c["others"]:
            for n in ("op2_rsa", "op2_ec256"):
                k = copy.copy(W.key(n))
                k.kid = c["pinned"]
                kb = KeyBundle()
                kb.append(k)
                kj.add_kb(o.issuer, kb)
        conf = client_conf(o, "code", provider_info={k: v for k, v in o.metadata().items() if k != "jwks_uri"})
        conf["base_url"] = "https://rp.example.com"
        del conf["client_secret"]
        conf["behaviour"].update(token_endpoint_auth_method="private_key_jwt", token_endpoint_auth_signing_alg=c["alg"])
        client = RP(config=conf, services=services(), keyjar=kj)
        kty = {"R": "RSA", "P": "RSA", "E": "EC"}[c["alg"][0]]
        kw = {}
        if c["pin"] == "arg":
            kw["kid"] = c["pinned"]
        elif c["pin"] == "context":
            ctx(client).kid["sig"][kty] = c["pinned"]
        srv = client.client_get("service", c["svc"])
        srv.endpoint = o.ep("token_endpoint")
        from oidcrp.client_auth import PrivateKeyJWT
        req = AccessTokenRequest(code="c", redirect_uri="https://rp.example.com/cb0", client_id="client-0")
        out = attempt(PrivateKeyJWT().construct, req, service=srv, authn_endpoint="token_endpoint", **kw)
        want = own.get(c["pinned"])
        fits = lambda k: k.kty == kty and (kty == "RSA" or k.crv == "P-256")  # noqa
        if c["pin"] != "none" and not c["pinned"]:
            return
        if c["pin"] == "none":
            usable = [k for k in own.values() if fits(k)]
            if not usable:
                check(not out.ok, "an assertion without a usable key: {!r}", out)
                return
        elif want is None or want.kty != kty:
            check(not out.ok, "key {!r} ({}) asked for, there is no such key of that type: {!r}", c["pinned"], c["pin"], out)
            check("client_assertion" not in req, "assertion in the request")
            t.nontriv(True)
            return
        elif not fits(want):
            return
        else:
            usable = [want]
        check(out.ok, "assertion with key {!r}: {!r}", c["pinned"], out)
        tok = req["client_assertion"]
        hdr = factory(tok).jwt.headers
        eq(hdr["alg"], c["alg"], "algorithm")
        good = []
        for k in usable:
            if hdr.get("kid", "") == k.kid:
                good.append(attempt(JWS(alg=c["alg"]).verify_compact, tok, [k]).ok)
        check(any(good), "signed with another key than those it could be ({!r}): header {!r}", [k.kid for k in usable], hdr)
        t.nontriv(c["pin"] != "none")
