"""C18: Only well-formed success responses are treated as success."""
import copy
import json
from urllib.parse import parse_qs, urlencode

import requests
from hypothesis import strategies as st

import world as W
from op import OP, World, client_conf, ctx, handler, response, services
from vt import attempt, check, eq, test

RULE = ("request: one request of a generated service (discovery, registration, reading the registration, token, refresh, user info, WebFinger, the OAuth2 variants) is answered with a generated status, content type, body (right, partial, "
        "error, damaged in generated ways) or transport failure; flow: the same inside a login driven through RPHandler. An independent classifier (status, content type, strict decoding) decides between success with exactly this content, the provider's error, "
        "and exception; for everything but success a deep snapshot of sessions, client, endpoints and keys has to be unchanged. Non-trivial: anything but a plain 200 with the right body.")
ASSUMPTIONS = ["an unsecured JWT where JSON is expected counts as decodable (the library documents it as wrongly tagged)", "a body that isn't of the announced type but decodes as the type the service expects may be accepted or refused", "the transport hands over decoded text (requests)"]

SERVICES = ["provider_info", "registration", "registration_read", "accesstoken", "refresh_token", "userinfo", "webfinger"]
STATUS = st.one_of(st.sampled_from([200, 200, 200, 200, 200, 201, 204, 206, 301, 302, 303, 304, 307, 400, 400, 400, 401, 403, 404, 405, 429, 499, 500, 501, 502, 503, 100, 207, 226, 299, 600, 999, 0]), st.integers(100, 599))
CTYPES = ["application/json", "application/json", "application/json", "application/json; charset=utf-8", "application/jrd+json", "Application/JSON", "text/plain", "text/html", "application/x-www-form-urlencoded",
          "application/x-www-form-urlencoded;charset=UTF-8", "application/jwt", "application/jose", "application/octet-stream", "", None, "x", "text/json", "application/problem+json"]
ERR = st.one_of(st.sampled_from(["invalid_grant", "invalid_client", "invalid_token", "access_denied", "server_error"]), st.text("abcdefXYZ _!", min_size=1, max_size=12))
SHAPES = ["good", "good", "good", "good", "error", "error", "error+good", "error_description only", "drop", "mistype", "empty object", "empty", "space", "null", "true", "number", "string", "list", "list of good", "nested", "truncated", "trailing", "html", "text",
          "urlencoded", "urlencoded error", "two objects", "nan", "jwt", "jwt garbage", "jwt none", "null error", "number error", "empty error"]


@st.composite
def answers(draw):
    return {"status": draw(STATUS), "ctype": draw(st.sampled_from(CTYPES)), "shape": draw(st.sampled_from(SHAPES)), "which": draw(st.integers(0, 9)), "err": draw(ERR), "desc": draw(st.sampled_from([None, "some text", "ü"])),
            "bad": draw(st.sampled_from([17, {"a": 1}, ["x", 1], None, True, "", -1])), "cut": draw(st.integers(0, 200)), "loc": draw(st.booleans()), "down": draw(st.sampled_from([None] * 12 + ["conn", "timeout", "ssl", "chunk"]))}


@st.composite
def cases(draw):
    return {"service": draw(st.sampled_from(SERVICES)), "kind": draw(st.sampled_from(["oidc", "oidc", "oidc", "oauth2"])), "a": draw(answers()), "again": draw(st.booleans())}


REQ = {"provider_info": ["issuer", "authorization_endpoint", "jwks_uri", "response_types_supported", "subject_types_supported", "id_token_signing_alg_values_supported"], "registration": ["client_id"], "registration_read": ["client_id"],
       "accesstoken": ["access_token", "token_type"], "refresh_token": ["access_token", "token_type"], "userinfo": ["sub"], "webfinger": ["subject", "links"]}
REQ2 = {"provider_info": ["issuer", "response_types_supported", "grant_types_supported"], "accesstoken": ["access_token", "token_type"], "refresh_token": ["access_token", "token_type"]}


def body_of(a, good, required, expected="json"):
    """(text, decoded value or None, what it is)"""
    sh = a["shape"]
    err = {"error": a["err"]}
    if a["desc"]:
        err["error_description"] = a["desc"]
    if sh == "good":
        return json.dumps(good), good
    if sh == "error":
        return json.dumps(err), err
    if sh == "error+good":
        both = dict(good, **err)
        return json.dumps(both), both
    if sh == "error_description only":
        d = {"error_description": "x", "error_uri": "https://a"}
        return json.dumps(d), d
    if sh in ("null error", "number error", "empty error"):
        d = {"error": {"null error": None, "number error": 17, "empty error": ""}[sh]}
        return json.dumps(d), d
    if sh in ("drop", "mistype"):
        d = copy.deepcopy(good)
        k = required[a["which"] % len(required)]
        if sh == "drop":
            d.pop(k, None)
        else:
            d[k] = a["bad"]
        return json.dumps(d), d
    if sh == "urlencoded":
        d = {k: v for k, v in good.items() if isinstance(v, (str, int))}
        return urlencode(d), ("form", {k: str(v) for k, v in d.items()})
    if sh == "urlencoded error":
        return urlencode(err), ("form", err)
    text = {"empty object": "{}", "empty": "", "space": " \n", "null": "null", "true": "true", "number": "17", "string": "\"access_token\"", "list": "[]", "list of good": json.dumps([good]), "nested": json.dumps({"response": good}),
            "truncated": json.dumps(good)[:max(1, len(json.dumps(good)) - 1 - a["cut"] % 40)], "trailing": json.dumps(good) + "x", "html": "<html><body>access_token=abc</body></html>", "text": "some text: access_token sub error",
            "two objects": json.dumps(good) + json.dumps(good), "nan": json.dumps(good)[:-1] + ", \"x\": nul}", "jwt garbage": "a.b.c", "jwt": None, "jwt none": None}[sh]
    if sh == "jwt":      # signed by somebody else
        text = W.sign(dict(good), "RS256", owner="op1")
    if sh == "jwt none":
        return W.sign(dict(good), "none"), ("jwt", good)
    if sh in ("empty object", "nested"):
        return text, json.loads(text)
    return text, None


def announced(ctype):
    c = (ctype or "").split(";")[0].strip().lower()
    if c in ("application/json", "application/jrd+json"):
        return "json"
    if c == "application/x-www-form-urlencoded":
        return "form"
    if c in ("application/jwt",):
        return "jwt"
    return ""


def classify(a, decoded, ok_status):
    """'success' (must), 'error' (must be the provider's error), 'no' (exception or an error), 'maybe'"""
    if a["down"]:
        return "no"
    typ = announced(a["ctype"])
    if a["shape"] == "jwt none":
        return "maybe" if ok_status else "no"
    form = isinstance(decoded, tuple)
    content = decoded[1] if form else decoded
    clean = content is not None and ((form and typ == "form") or (not form and typ == "json"))
    err = content is not None and isinstance(content.get("error"), str) and content["error"]
    if not ok_status:
        if 400 <= a["status"] < 500 and clean and err:
            return "error"
        return "no"
    if content is None:
        return "no"
    if "error" in content:
        return "error" if clean and err else "no"
    if typ == "form" and not form or typ == "json" and form or typ == "jwt":
        return "maybe" if not form and a["shape"] == "good" else "no"
    if a["shape"] == "good":
        return "success" if clean else "maybe"
    if form:
        return "maybe"
    return "maybe" if a["shape"] == "mistype" else "no"


def snapshot(rp, skip=()):
    c = ctx(rp)
    srv = {n: (s.endpoint, s.endpoint_name, s.default_authn_method) for n, s in rp._service.items()}
    attrs = {n: copy.deepcopy(getattr(c, n, None)) for n in ("client_id", "client_secret", "client_secret_expires_at", "registration_response", "provider_info", "issuer", "behaviour", "callback", "redirect_uris", "base_url", "config", "register_args")}
    for n in skip:
        del attrs[n]
    for n in ("provider_info", "registration_response", "behaviour"):
        v = attrs[n]
        attrs[n] = v.to_dict() if hasattr(v, "to_dict") else v
    keys = {o: sorted((k.kty, k.use or "", k.kid or "", k.source if hasattr(k, "source") else "") for b in c.keyjar._issuers[o]._bundles for k in b.keys() if k.kty != "oct") for o in list(c.keyjar.owners())}
    return {"state": copy.deepcopy(c.state._db), "services": srv, "attrs": repr(attrs), "keys": {k: v for k, v in keys.items() if v}}


def transport_error(kind):
    return {"conn": requests.exceptions.ConnectionError("refused"), "timeout": requests.exceptions.ReadTimeout("slow"), "ssl": requests.exceptions.SSLError("bad"), "chunk": requests.exceptions.ChunkedEncodingError("cut")}[kind]


def answer(a, text):
    if a["down"]:
        return transport_error(a["down"])
    return response(a["status"], text, a["ctype"], {"Location": "https://evil.example.org/x"} if a["loc"] and 300 <= a["status"] < 400 else None)


class Rig:
    """A client in the middle of a login where the next request is of the given service"""

    def __init__(self, w, service, kind):
        self.w, self.service, self.kind = w, service, kind
        self.op = OP(w, 0)
        srv = services()
        if kind == "oauth2":
            srv = {"discovery": {"class": "oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery"}, "authorization": {"class": "oidcrp.oauth2.authorization.Authorization"},
                   "access_token": {"class": "oidcrp.oauth2.access_token.AccessToken"}, "refresh_access_token": {"class": "oidcrp.oauth2.refresh_access_token.RefreshAccessToken"}}
        srv["rr"] = {"class": "oidcrp.oidc.read_registration.RegistrationRead"}
        self.a = None
        op = self.op

        def any_hook(orig):
            def h(req):
                return self.reply if self.armed else orig(req)
            return h
        self.armed = False
        op.meta_hook = any_hook(lambda r: response(200, op.metadata()))
        op.reg_hook = any_hook(self.reg)
        op.token_hook = any_hook(op.token)
        op.userinfo_hook = any_hook(op.userinfo)
        self.w.serve(op.netloc, any_hook(op.handle))
        dyn = service in ("registration", "registration_read")
        conf = client_conf(op, dynamic=dyn)
        if kind == "oauth2":
            conf["behaviour"]["scope"] = ["a"]
        self.rph = handler({"op": conf}, services=srv)
        if service == "webfinger":
            self.rp = self.rph.init_client("op")
            ctx(self.rp).issuer = ""
            self.w.serve("op0.example.org", lambda req: self.reply if self.armed else op.handle(req))
        elif service in ("provider_info", "registration"):
            self.rp = self.rph.init_client("op")
            if service == "registration":
                self.rph.do_provider_info(self.rp)
        else:
            self.rp = self.rph.client_setup("op")
        self.c = ctx(self.rp)
        self.state = ""
        if service in ("accesstoken", "refresh_token", "userinfo"):
            begun = self.rph.begin("op")
            self.lg, resp = op.authorize(begun["url"])
            self.state = begun["state"]
            if kind == "oauth2":
                resp.pop("id_token", None)
            self.rph.finalize_auth(self.rp, op.issuer, resp)
            if service != "accesstoken":
                self.rph.get_tokens(self.state, self.rp)

    def reg(self, req):
        if req.method == "GET":
            return response(200, dict(self.regd))
        body = json.loads(req.body)
        self.regd = dict(body, client_id="cid-reg", client_secret="s" * 40, client_secret_expires_at=0, registration_client_uri=self.op.base + "/register/1", registration_access_token="rat")
        return response(201, self.regd)

    def good(self):
        s = self.service
        op = self.op
        if s == "provider_info":
            d = op.metadata()
            if self.kind == "oauth2":
                return dict(d, token_endpoint=op.base + "/tok2", marker="m")
            return dict(d, token_endpoint=op.base + "/tok2", marker="m", jwks_uri=op.base + "/jwks.json")
        if s == "registration":
            return {"client_id": "new-id", "client_secret": "n" * 40, "client_secret_expires_at": 0, "redirect_uris": ["https://rp.example.com/authz_cb/x"], "registration_access_token": "t", "registration_client_uri": op.base + "/register/1"}
        if s == "registration_read":
            return dict(self.regd, client_id="cid-reg2", client_name="N")
        if s == "accesstoken":
            d = {"access_token": op.new_at(self.lg), "token_type": "Bearer", "expires_in": 77, "refresh_token": op.new_rt(self.lg)}
            if self.kind == "oidc":
                d["id_token"] = op.id_token(self.lg)
            return d
        if s == "refresh_token":
            return {"access_token": op.new_at(self.lg), "token_type": "Bearer", "expires_in": 78, "refresh_token": op.new_rt(self.lg)}
        if s == "userinfo":
            return {"sub": self.lg.sub, "email": "a@b", "n": 1}
        return {"subject": "acct:joe@op0.example.org", "links": [{"rel": "http://openid.net/specs/connect/1.0/issuer", "href": "https://op9.example.org"}]}

    def request(self):
        s = self.service
        if s in ("accesstoken", "refresh_token", "userinfo"):
            args = {}
            if s == "userinfo":
                args = {"access_token": self.lg.ats[0]}
            elif s == "accesstoken":
                args = {"code": self.lg.code, "state": self.state, "redirect_uri": "https://rp.example.com/cb0", "grant_type": "authorization_code", "client_id": self.c.client_id}
            return self.rp.do_request(s, state=self.state, request_args=args)
        if s == "webfinger":
            return self.rp.do_request(s, resource="acct:joe@op0.example.org")
        return self.rp.do_request(s)


def plain(resp):
    return resp.to_dict() if hasattr(resp, "to_dict") else dict(resp) if isinstance(resp, dict) else resp


SET_BY_LIBRARY = {"__expires_at", "__verified_id_token", "state", "expires_in", "id_token", "scope", "client_secret_expires_at"}


@test(cases(), quick=5000, thorough=60000)
def request(case, t):
    s, a = case["service"], case["a"]
    kind = case["kind"] if s in REQ2 else "oidc"
    with World() as w:
        rig = Rig(w, s, kind)
        good = rig.good()
        text, decoded = body_of(a, good, (REQ2 if kind == "oauth2" else REQ)[s])
        ok_status = 200 <= a["status"] <= 206 and not a["down"]
        verdict = classify(a, decoded, ok_status)
        if s == "webfinger" and verdict == "no" and ok_status and isinstance(decoded, dict) and not decoded.get("error"):
            verdict = "maybe"       # nothing is required in a JRD
        rig.reply, rig.armed = answer(a, text), True
        if s == "provider_info":     # the keys aren't part of what is generated
            rig.armed = False
            orig = rig.op.handle
            w.serve(rig.op.netloc, lambda req: rig.reply if "well-known" in req.path else orig(req))
        skip = ("callback", "redirect_uris", "register_args") if s == "registration" else ()      # set while the request is made
        before = snapshot(rig.rp, skip)
        out = attempt(rig.request)
        got = plain(out.value) if out.ok else None
        is_err = out.ok and isinstance(got, dict) and "error" in got
        what = "{} {} {!r} with {!r}: {!r}".format(s, a["status"] if not a["down"] else a["down"], a["ctype"], text[:200], out)
        t.label("svc:" + s, verdict, "result:" + ("error" if is_err else "success" if out.ok else "exception"))
        if verdict == "success":
            check(out.ok and not is_err, "not accepted: {}", what)
        if verdict == "error":
            check(is_err, "the error is not reported: {}", what)
            eq(got["error"], a["err"], "error code")
            if a["desc"]:
                eq(got.get("error_description"), a["desc"], "error description")
        if verdict == "no":
            check(not out.ok or is_err, "taken for a success: {}", what)
            if is_err and decoded is None:
                check("access_token" not in got and "client_id" not in got and "sub" not in got, "content of {}", what)
        if out.ok and not is_err:
            content = decoded[1] if isinstance(decoded, tuple) else decoded
            check(content is not None, "nothing to decode: {}", what)
            for k, v in content.items():
                if k in SET_BY_LIBRARY or not isinstance(v, str):
                    continue
                g = got.get(k)
                check(g == v or (isinstance(g, list) and " ".join(map(str, g)) == v), "{} of {}", k, what)
            for k in got:
                check(k in content or k == "__verified_id_token" or not ("_token" in k or "endpoint" in k and "_auth" not in k or k in ("client_id", "client_secret", "sub", "issuer", "jwks_uri", "email")), "{} is invented in {}", k, what)
        else:
            after = snapshot(rig.rp, skip)
            for part in before:
                eq(after[part], before[part], "{} after {}".format(part, what))
        if verdict != "success" or a["shape"] != "good" or a["status"] != 200:
            t.nontriv("%s/%s" % (s, a["shape"]))
        if case["again"] and not (out.ok and not is_err):
            # the same client completes the step when asked again
            rig.reply = response(200, good)
            out = attempt(rig.request)
            check(out.ok and "error" not in plain(out.value), "a later correct response: {!r} after {}", out, what)
            t.label("again")


@st.composite
def flows(draw):
    return {"step": draw(st.sampled_from(["discovery", "registration", "token", "userinfo", "refresh", "get_user_info"])), "a": draw(answers())}


@test(flows(), quick=2500, thorough=40000)
def flow(case, t):
    """The same through RPHandler"""
    a, step = case["a"], case["step"]
    with World() as w:
        op = OP(w, 0)
        rph = handler({"op": client_conf(op, dynamic=step == "registration")})
        ok_status = 200 <= a["status"] <= 206 and not a["down"]
        hold = {}

        def hook(orig, fit, required):
            def h(req):
                text, dec = body_of(a, fit(req), required)
                hold["dec"] = dec
                hold["text"] = text
                return answer(a, text)
            return h
        if step == "discovery":
            op.meta_hook = hook(None, lambda r: op.metadata(), REQ["provider_info"])
            out = attempt(rph.begin, "op")
        elif step == "registration":
            op.reg_hook = hook(None, lambda r: json.loads(op.register(r).text), REQ["registration"])
            out = attempt(rph.begin, "op")
        else:
            begun = rph.begin("op")
            rp = rph.issuer2rp[op.issuer]
            lg, resp = op.authorize(begun["url"])
            fit = lambda r: json.loads(op.token(r).text)  # noqa
            if step == "token":
                op.token_hook = hook(None, fit, REQ["accesstoken"])
                before = snapshot(rp)
                out = attempt(rph.finalize, op.issuer, resp)
            elif step == "userinfo":
                op.userinfo_hook = hook(None, lambda r: json.loads(op.userinfo(r).text), REQ["userinfo"])
                out = attempt(rph.finalize, op.issuer, resp)
            else:
                rph.finalize(op.issuer, resp)
                before = snapshot(rp)
                if step == "refresh":
                    op.token_hook = hook(None, fit, REQ["refresh_token"])
                    out = attempt(rph.refresh_access_token, begun["state"])
                else:
                    op.userinfo_hook = hook(None, lambda r: json.loads(op.userinfo(r).text), REQ["userinfo"])
                    out = attempt(rph.get_user_info, begun["state"])
        verdict = classify(a, hold["dec"], ok_status)
        text = hold["text"]
        what = "{} {} {!r} with {!r}: {!r}".format(step, a["status"] if not a["down"] else a["down"], a["ctype"], text[:200], out)
        success = out.ok and not (isinstance(plain(out.value), dict) and "error" in plain(out.value))
        if verdict in ("error", "no"):
            check(not success, "goes on after {}", what)
        if verdict == "success":
            check(success, "does not go on after {}", what)
        t.label(step, verdict, "went on" if success else "stopped")
        if not success:
            if step == "discovery":
                if rph.issuer2rp:
                    c = ctx(list(rph.issuer2rp.values())[0])
                    check(not c.provider_info, "provider info {} after {}", c.provider_info, what)
            elif step == "registration":
                for rp in rph.issuer2rp.values():
                    check(not ctx(rp).client_id and not ctx(rp).client_secret, "client id {} after {}", ctx(rp).client_id, what)
            elif step == "token":
                rec = ctx(rp).state.get_state(begun["state"])
                check("token_response" not in rec, "token response stored after {}: {!r}", what, rec)
                check(not attempt(rph.get_valid_access_token, begun["state"]).ok, "a token is available after {}", what)
                check(not attempt(rph.has_active_authentication, begun["state"]).value, "authenticated after {}", what)
                after = snapshot(rp)
                eq(after["attrs"], before["attrs"], "client after " + what)
                eq(after["keys"], before["keys"], "keys after " + what)
            elif step == "userinfo":
                rec = ctx(rp).state.get_state(begun["state"])
                check("user_info" not in rec, "user info stored after {}: {!r}", what, rec)
            else:
                after = snapshot(rp)
                for part in before:
                    eq(after[part], before[part], "{} after {}".format(part, what))
        if a["shape"] != "good" or a["status"] != 200 or a["down"]:
            t.nontriv(step + "/" + a["shape"])
