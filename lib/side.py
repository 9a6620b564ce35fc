"""A client, its provider and its handler, and what is comparable between two of them."""
import base64
import copy
import hashlib
import json
import re
import time
from urllib.parse import parse_qsl, urlencode

import world as W
from op import OP, PKCE, World, client_conf, ctx, handler, query_of, services
from hypothesis import strategies as st
from oidcrp.oidc import RP
from vt import attempt, check, eq

class Side:
    """A handler with one client and the world it lives in"""

    def __init__(self, c, w=None, op=None, rph=None, key="op"):
        self.c, self.key, self.kinds = c, key, {}
        self.begin_args, self.register_args = {}, {}
        self.w = w or World()
        self.op = op or make_op(c, self.w)
        self.rph = rph or make_handler(c, self.op)
        with self.w:
            self.client = self.rph.init_client(key)
        self.labels = {}
        self.logins = []       # [state, Login, response]
        self.dpop = None
        self.mark = 0

    def restored(self):
        c = self.c
        new = Side.__new__(Side)
        new.c, new.key, new.w, new.kinds = c, self.key, World(), dict(self.kinds)
        new.op = make_op(c, new.w)
        memo = {id(self.op): new.op, id(self.w): new.w}
        for a in ("logins", "codes", "at", "rt", "clients", "counter", "secret", "par", "regs", "pushed", "rotate"):
            setattr(new.op, a, copy.deepcopy(getattr(self.op, a), memo))
        new.begin_args, new.register_args = {}, {}
        new.labels, new.dpop, new.mark = dict(self.labels), self.dpop, 0
        new.logins = copy.deepcopy(self.logins, memo)
        ctx_ = ctx(self.client)
        before = json.dumps(ctx_.dump(), sort_keys=True), json.dumps(self.client.client_get("services").dump(), sort_keys=True)
        text = json.dumps(ctx_.dump())
        stext = json.dumps(self.client.client_get("services").dump())
        eq((json.dumps(ctx_.dump(), sort_keys=True), json.dumps(self.client.client_get("services").dump(), sort_keys=True)), before, "dump after dumping")
        new.rph = make_handler(c, new.op)
        with new.w:
            if c.get("blank"):
                # a client that only knows which services and add-ons there are
                conf, srv = make_conf(c, new.op)
                new.client = RP(services=srv, config={k: v for k, v in conf.items() if k == "add_ons"}, httpc_params=new.rph.httpc_params)
            else:
                new.client = new.rph.init_client(self.key)
            ctx(new.client).load(json.loads(text))
            if c["services"]:
                new.client.client_get("services").load(json.loads(stext), init_args={"client_get": new.client.client_get})
            elif self.done_info:
                new.rph.do_provider_info(new.client)
        new.done_info = self.done_info
        new.rph.issuer2rp[new.op.issuer] = new.client
        new.rph.hash2issuer[self.key] = new.op.issuer
        new.jwks_before = None
        return new

    done_info = False


def make_op(c, w, i=0, **more):
    meta = {"backchannel_logout_supported": True, "backchannel_logout_session_supported": True, "request_parameter_supported": True, "request_object_signing_alg_values_supported": ["RS256", "none"], "pushed_authorization_request_endpoint": "https://op%d.example.org/par" % i}
    if c["dpop"]:
        meta["dpop_signing_alg_values_supported"] = ["ES256", "RS256"]
    meta.update(more)
    op = OP(w, i, alg=c["alg"] or "RS256", meta=meta, endpoint_query="")
    op.regs, op.pushed = {}, {}

    def reg(req):
        if req.method == "GET":
            return W.response(200, dict(op.regs, client_name="read"))
        r = op.register(req)
        d = json.loads(r.text)
        d.update(registration_access_token="rat-%d" % op.counter, registration_client_uri=op.base + "/register")
        if c.get("secret_expires"):
            d["client_secret_expires_at"] = c["secret_expires"]
        op.regs = d
        return W.response(201, d)

    def par(req):
        op.counter += 1
        uri = "urn:par:%d" % op.counter
        op.pushed[uri] = req.body
        return W.response(201, {"request_uri": uri, "expires_in": 60})
    op.reg_hook, op.par_hook = reg, par
    return op


def make_handler(c, op):
    conf, srv = make_conf(c, op)
    return handler({"op": conf}, services=srv, hash_seed=c["seed"])


def make_conf(c, op):
    """Client configuration and service definitions"""
    srv = services(drop=("web_finger",))
    srv["rr"] = {"class": "oidcrp.oidc.read_registration.RegistrationRead"}
    if c["uimethod"] == "post":
        srv["userinfo"]["kwargs"] = {"conf": {"http_method": "POST", "default_authn_method": "bearer_body"}}
    if c["claims"]:
        srv["authorization"]["kwargs"] = {"conf": {"request_args": {"max_age": 77, "ui_locales": ["sv"]}}}
    conf = client_conf(op, c["rt"], dynamic=c["dyn"])
    b = conf["client_preferences" if c["dyn"] else "behaviour"]
    b["token_endpoint_auth_method"] = c["method"]
    b["scope"] = c["scope"]
    if c["alg"]:
        b["id_token_signed_response_alg"] = c["alg"]
    if c["dyn"] and c["prefs"]:
        b["client_name"] = "Näme"
        b["grant_types"] = ["refresh_token"]
    if c["jar"] and not c["par"]:
        b["request_object_signing_alg"] = "RS256"
        srv["authorization"].setdefault("kwargs", {}).setdefault("conf", {})["request_object_signing_alg"] = "RS256"
    if c["skew"] is not None:
        conf["clock_skew"] = c["skew"]
    if c["allow"]:
        conf["allow"] = dict(c["allow"])
    if c["logout"]:
        conf["backchannel_logout_uri"] = "https://rp.example.com/bc"
        conf["post_logout_redirect_uris"] = ["https://rp.example.com/bye"]
    if c["keys"]:
        conf["jwks_uri"] = "https://rp.example.com/static/jwks.json"
    add = {}
    if c["pkce"]:
        add.update(copy.deepcopy(PKCE))
    if c["dpop"]:
        add["dpop"] = {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256", "RS256"]}}
    if c["par"]:
        add["par"] = {"function": "oidcrp.oauth2.add_on.pushed_authorization.add_support", "kwargs": {"body_format": "urlencoded", "merge_rule": "lax"}}
    if add:
        conf["add_ons"] = add
    return conf, srv


# -- what is compared -------------------------------------------------------

def jwt_parts(s):
    p = s.split(".")
    if len(p) != 3 or not p[0].startswith("ey"):
        return None
    try:
        return [json.loads(base64.urlsafe_b64decode(x + "=" * (-len(x) % 4))) for x in p[:2]]
    except ValueError:
        return None


def norm(side, x, key=None):
    if hasattr(x, "to_dict"):
        x = x.to_dict()
    if isinstance(x, dict):
        return {norm(side, k) if isinstance(k, str) else k: norm(side, v, k) for k, v in x.items() if k not in ("__error",)}
    if isinstance(x, (list, tuple)):
        return [norm(side, v) for v in x]
    if isinstance(x, str):
        if x in side.labels:
            return side.labels[x]
        if key in ("jti",):
            return "<random %d>" % (len(x) >= 16)
        if key in ("code_verifier", "code_challenge"):
            return "<pkce>"
        if key == "jwk":
            return x
        parts = jwt_parts(x)
        if parts:
            hdr, body = parts
            if "jwk" in hdr:
                tp = json.dumps(hdr["jwk"], sort_keys=True)
                hdr = dict(hdr, jwk="same as before" if tp == side.dpop else "first" if side.dpop is None else "changed", kid="<dpop>")
                side.dpop = tp
            return {"hdr": norm(side, hdr), "body": norm(side, body), "signed": bool(x.split(".")[2])}
        if x[:1] in "{[":
            try:
                return norm(side, json.loads(x))
            except ValueError:
                pass
        if x.startswith(("https://", "http://")) and "?" in x:
            return {"base": x.split("?")[0], "query": norm(side, sorted(query_of(x))) if False else [[k, norm(side, v, k)] for k, v in sorted(query_of(x))]}
        for v, lb in side.labels.items():
            if v in x:
                x = x.replace(v, lb)
    return x


def requests_of(side):
    res = []
    for r in side.w.log[side.mark:]:
        if r.path == "/jwks.json":      # keys are fetched when they are needed, how often isn't behaviour of the client
            continue
        h = {k.lower(): v for k, v in r.headers.items() if k.lower() in ("authorization", "content-type", "dpop", "accept")}
        body = r.body
        if "urlencoded" in h.get("content-type", "") or r.path == "/par":
            f = r.form
            if r.path == "/token" and side.c["pkce"]:
                d = dict(f)
                lg = side.op.codes.get(d.get("code"))
                if lg is not None and "code_verifier" in d:
                    ch = base64.urlsafe_b64encode(hashlib.sha256(d["code_verifier"].encode()).digest()).decode().rstrip("=")
                    f = [(k, v) for k, v in f if k != "code_verifier"] + [("verifier ok", str(ch == lg.request.get("code_challenge") or "pushed" in str(lg.request)))]
            body = [[k, norm(side, v, k)] for k, v in sorted(f)]
        res.append({"method": r.method, "url": norm(side, r.url if "?" in r.url else r.url), "headers": norm(side, h), "body": norm(side, body)})
    side.mark = len(side.w.log)
    return res


def tables(side):
    c = ctx(side.client)
    s = c.state
    known = {x[0] for x in side.logins}
    # an authorization request that couldn't be made leaves a session behind that nobody knows the name of
    stray = {k for k, v in s._db.items() if re.fullmatch("_*[0-9A-Za-z]{20,}_*", k) and k.strip("_") not in side.labels}
    res = {"store": {norm(side, k): norm(side, v) for k, v in s._db.items() if k not in stray}, "stray": len(stray - known)}
    for lg in side.logins:
        st_ = lg[0]
        for what, f, arg in (("nonce", s.get_state_by_nonce, lg[1].nonce), ("sub", s.get_state_by_sub, lg[1].sub), ("sid", s.get_state_by_sid, lg[1].sid or "none"), ("iss", s.get_iss, st_)):
            o = attempt(f, arg)
            res["%s of %s" % (what, side.labels[st_])] = norm(side, o.value) if o.ok else type(o.exc).__name__
    res["attrs"] = norm(side, {n: getattr(c, n, None) for n in ("issuer", "client_id", "client_secret", "client_secret_expires_at", "provider_info", "registration_response", "behaviour", "callback", "redirect_uris", "clock_skew", "allow", "base_url", "hash2issuer", "client_preferences", "register_args",
                                                                "registration_access_token", "verify_args", "requests_dir", "args", "post_logout_redirect_uris", "jwks", "jwks_uri", "kid", "httpc_params")})
    res["cb"] = norm(side, c.callback)
    res["endpoints"] = {n: attempt(x.get_endpoint).value for n, x in side.client.client_get("services").items() if x.endpoint_name and side.done_info and n != "rr"}
    res["methods"] = {n: [x.default_authn_method, x.http_method, x.request_body_type, x.response_body_type, x.msg_type.__name__, x.response_cls.__name__] for n, x in side.client.client_get("services").items()}
    return res


def damage(op, lg, how):
    """Changes for an ID Token"""
    return {"nonce": {"nonce": "other"}, "iss": {"iss": "https://evil.example.org"}, "aud": {"aud": ["evil"]}}.get(how, {})


def forged(op, lg, how, **kw):
    if how in ("sig", "alg"):
        claims = op.id_claims(lg, **kw)
        alg = {"RS256": "ES256", "ES256": "RS256", "HS256": "RS256"}[op.alg] if how == "alg" else "RS256"
        return W.sign(claims, alg, owner="op1" if how == "sig" else op.owner)
    return op.id_token(lg, **dict(kw, **damage(op, lg, how)))


def run(side, step):
    """Returns something comparable"""
    op, rph, client = side.op, side.rph, side.client
    k = step[0]
    op.token_hook = op.userinfo_hook = None
    if k == "info":
        r = rph.do_provider_info(client)
        side.done_info = True
        return r
    if k == "rediscover":
        return client.do_request("provider_info") if side.done_info else None
    if k == "register":
        rph.do_client_registration(client, side.key, **side.register_args)
        rph.issuer2rp[op.issuer] = client
        return ctx(client).client_id
    if k == "reregister":
        return client.do_request("registration") if side.c["dyn"] else None
    if k == "readreg":
        return client.do_request("registration_read") if side.c["dyn"] else None
    if k == "begin":
        out = rph.init_authorization(client, **side.begin_args)
        url = out["url"]
        n = len(side.logins)
        side.labels[out["state"]] = "<state %d>" % n
        params = dict(query_of(url))
        if "request_uri" in params:
            params = dict(parse_qsl(op.pushed[params["request_uri"]]))
        if "request" in params:
            params = dict(jwt_parts(params["request"])[1], **{k: v for k, v in params.items() if k != "request"})
        if params.get("nonce"):
            side.labels[params["nonce"]] = "<nonce %d>" % n
        rt = params.get("response_type")
        params["response_type"] = rt if isinstance(rt, str) else " ".join(rt)
        lg, resp = op.authorize_params(params, sub=step[1], sid=step[2])
        side.logins.append([out["state"], lg, resp])
        side.kinds[out["state"]] = "begun"
        return {"url": url}
    if k == "set":
        c = ctx(side.client)
        name, val = step[1:]
        if name == "scope":
            c.behaviour["scope"] = val
        elif name == "max_age":
            c.register_args["max_age"] = val
        elif name == "redirect_uris" and side.c["dyn"]:
            return None     # only what is registered
        else:
            setattr(c, name, copy.deepcopy(val))
        return None
    if not side.logins:
        return None
    if k == "wait":
        return None
    state, lg, resp = side.logins[step[1] % len(side.logins)]
    if k in ("redirect", "finish"):
        resp = dict(resp)
        how = step[2] if k == "redirect" else "ok"
        if how == "error":
            resp = {"error": "access_denied", "state": state}
        elif how == "state":
            resp["state"] = "unknown"
        elif how != "ok" and "id_token" in resp:
            resp["id_token"] = forged(op, lg, how, at=resp.get("access_token"), code=resp.get("code"))
        if k == "redirect":
            return rph.finalize_auth(client, op.issuer, resp)
        r = rph.finalize(op.issuer, resp)
        return r
    if k == "token":
        how = step[2]
        if how in ("error", "500"):
            op.token_hook = lambda req: W.response(400 if how == "error" else 500, {"error": "invalid_grant"})
        elif how != "ok":
            def hook(req):
                d = json.loads(op.token(req).text)
                if "id_token" in d:
                    d["id_token"] = forged(op, lg, how)
                return W.response(200, d)
            op.token_hook = hook
        return rph.get_tokens(state)
    if k == "refresh":
        op.rotate = step[3]
        return rph.refresh_access_token(state, scope=step[2] or "")
    if k == "userinfo":
        how = step[2]
        if how == "sub":
            op.userinfo_hook = lambda req: W.response(200, {"sub": "evil", "email": "x"})
        elif how == "401":
            op.userinfo_hook = lambda req: W.response(401, {"error": "invalid_token"})
        elif how == "jwt":
            op.userinfo_hook = lambda req: W.response(200, W.sign({"sub": lg.sub, "email": "x", "iss": op.issuer, "aud": [ctx(client).client_id]}, "RS256", owner=op.owner), "application/jwt")
        return rph.get_user_info(state)
    if k == "valid":
        return rph.get_valid_access_token(state)
    if k == "active":
        return rph.has_active_authentication(state)
    if k == "logout":
        r = rph.logout(state)
        for key_, v in query_of(r["url"]):
            if key_ == "state":
                side.labels[v] = "<logout %d>" % len(side.labels)
        return r["url"]
    if k == "backchannel":
        from oidcrp.rp_handler import backchannel_logout
        claims = {"iss": op.issuer, "aud": [ctx(client).client_id], "iat": int(time.time()), "jti": "0123456789abcdefgh", "events": {"http://schemas.openid.net/event/backchannel-logout": {}}, "sub": lg.sub}
        if step[2] == "aud":
            claims["aud"] = ["evil"]
        if step[2] == "sid" and lg.sid:
            claims["sid"] = lg.sid
        tok = W.sign(claims, op.alg, owner="op1" if step[2] == "sig" else op.owner, secret=op.secret if step[2] != "sig" else "w" * 40)
        return backchannel_logout(client, request=urlencode({"logout_token": tok}))
    if k == "clear":
        rph.clear_session(state)
        return None


def same(got, want, what, path=""):
    """Where two structures differ first"""
    if isinstance(got, dict) and isinstance(want, dict):
        for k in list(want) + [x for x in got if x not in want]:
            check(k in got and k in want, "{}: {}.{} {}", what, path, k, "lost: %r" % (want.get(k),) if k in want else "new: %r" % (got.get(k),))
            same(got[k], want[k], what, "%s.%s" % (path, k))
    elif isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            same(a, b, what, "%s[%d]" % (path, i))
    else:
        eq(got, want, "%s: %s" % (what, path))


# -- generators ---------------------------------------------------------------

SETTINGS = st.sampled_from([("clock_skew", 0), ("clock_skew", 300), ("allow", {"missing_kid": True}), ("allow", {}), ("verify_args", {"skew": 3}), ("post_logout_redirect_uris", ["https://rp.example.com/later"]),
                            ("client_secret_expires_at", 4102444800), ("scope", ["openid", "phone"]), ("max_age", 11), ("redirect_uris", ["https://rp.example.com/cb9"]), ("args", {"x": [1]}), ("requests_dir", "static"),
                            ("jwks_uri", "https://rp.example.com/k"), ("kid", {"sig": {"RSA": "x"}, "enc": {}}), ("registration_access_token", "t"), ("httpc_params", {"timeout": 3})])

def step(dumps=False):
    parts = [
        st.tuples(st.just("begin"), st.sampled_from(["u1", "u2"]), st.sampled_from([None, None, "s1", "s2"])),
        st.tuples(st.just("redirect"), st.integers(0, 3), st.sampled_from(["ok"] * 6 + ["nonce", "state", "iss", "alg", "error", "sig", "aud"])),
        st.tuples(st.just("token"), st.integers(0, 3), st.sampled_from(["ok", "ok", "ok", "ok", "nonce", "error", "500", "sig"])),
        st.tuples(st.just("finish"), st.integers(0, 3)), st.tuples(st.just("finish"), st.integers(0, 3)),
        st.tuples(st.just("refresh"), st.integers(0, 3), st.sampled_from([None, "openid"]), st.booleans()),
        st.tuples(st.just("userinfo"), st.integers(0, 3), st.sampled_from(["ok", "ok", "ok", "sub", "401", "jwt"])),
        st.tuples(st.just("valid"), st.integers(0, 3)), st.tuples(st.just("active"), st.integers(0, 3)), st.tuples(st.just("logout"), st.integers(0, 3)),
        st.tuples(st.just("backchannel"), st.integers(0, 3), st.sampled_from(["ok", "ok", "sig", "aud", "sid"])),
        st.tuples(st.just("clear"), st.integers(0, 3)), st.tuples(st.just("wait"), st.sampled_from([1, 20, 1800, 3700])),
        st.tuples(st.just("rediscover")), st.tuples(st.just("reregister")), st.tuples(st.just("readreg"))]
    if dumps:
        parts.append(st.tuples(st.just("set"), SETTINGS).map(lambda x: ["set"] + list(x[1])))
        parts += [st.tuples(st.just("dump")), st.tuples(st.just("dump"))]
    return st.one_of(parts)


def history(draw, dumps=False, size=10):
    """Steps of one client: half of them arbitrary, half of them damaged variants of a complete login"""
    steps = [["info"], ["register"], ["begin", "u1", draw(st.sampled_from([None, "s1"]))]]
    if draw(st.booleans()):
        return steps + [list(s) for s in draw(st.lists(step(dumps), min_size=2, max_size=size))]
    steps += draw(st.sampled_from([[["finish", 0]], [["redirect", 0, "ok"], ["token", 0, "ok"], ["userinfo", 0, "ok"]], [["redirect", 0, "ok"], ["token", 0, "ok"]]]))
    steps += draw(st.sampled_from([[], [["refresh", 0, None, False]], [["refresh", 0, None, True], ["refresh", 0, "openid", True], ["userinfo", 0, "jwt"]], [["wait", 3700], ["valid", 0]], [["valid", 0], ["active", 0]]]))
    steps += draw(st.sampled_from([[], [["logout", 0]], [["backchannel", 0, "ok"]], [["backchannel", 0, "sid"], ["active", 0]], [["begin", "u1", "s2"], ["finish", 1], ["backchannel", 0, "sid"], ["active", 1]]]))
    for s in draw(st.lists(step(dumps), max_size=2)):
        steps.insert(draw(st.integers(3, len(steps))), list(s))
    if dumps:
        steps.insert(draw(st.integers(2, len(steps) - 1)), ["dump"])
    return steps


def parameters(draw):
    """Configuration of a client"""
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"dyn": d(False, True), "rt": d("code", "code", "code id_token", "id_token", "id_token token", "code token"), "method": d("client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"),
            "alg": d(None, "RS256", "ES256", "HS256"), "skew": d(None, 0, 100), "jar": d(False, True), "pkce": d(False, True), "dpop": d(False, True), "par": d(False, False, True),
            "allow": d(None, {"missing_kid": True}, {"issuer_mismatch": True}), "logout": d(False, True), "claims": d(False, True), "uimethod": d("get", "post"), "prefs": d(False, True), "keys": d(None, "jwks_uri"),
            "scope": d(["openid"], ["openid", "email"]), "seed": d("seed", "ä"), "secret_expires": d(None, 4102444800, 0)}
