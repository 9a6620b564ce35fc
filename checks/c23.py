"""C23: client credentials and plain OAuth2 clients."""
import base64
import json
from urllib.parse import parse_qsl, quote_plus, urlsplit

import requests
from hypothesis import strategies as st

import world as W
from clock import Clock
from op import World, query_of, response, single
from vt import attempt, check, eq, fail, test

RULE = ("cc: histories of token and refresh requests for several keys against a recording token endpoint whose answers vary (expiry, refresh token kept, rotated or absent, errors, incomplete answers), through Client.do_request or through the services themselves. "
        "Every request is compared with an exact expected message and the stored responses with a model. code: histories of interleaved plain OAuth2 logins, at client or at handler level, with user info or not. "
        "Non-trivial: a refresh after several responses, several keys, a failure in between / at least two logins interleaved or a refresh.")
ASSUMPTIONS = ["the client credentials refresh request carries the refresh token as bearer token in the header when configured by default (pinned by tests/test_16_cc_oauth2_service.py)",
               "a new client credentials token response starts a new grant for its key: the refresh token of the previous one is not used any more"]

TOKEN_URL = "https://as.example.org/token"
TEXT = st.text("abcXYZ019._-~+/=:% &?#\"é€", min_size=1, max_size=12)
SECRET = st.text("abcXYZ019._-~+/=:% &", min_size=1, max_size=20).map(lambda s: s + "-0123456789abcdef0123456789abcdef")
SCOPES = st.lists(st.sampled_from(["read", "write", "a:b", "x/y", "https://api.example/z"]), min_size=1, max_size=3, unique=True)
KEYS = [None, "s1", "s2", "cc"]


def expiry(draw):
    return draw(st.sampled_from([None, 3600, 1, "60", 0]))


@st.composite
def answers(draw, kinds=("ok", "ok", "ok", "ok", "400", "500", "200 error", "no token", "not json", "302")):
    kind = draw(st.sampled_from(("ok",) * 4 + kinds))
    d = {"kind": kind, "expires_in": expiry(draw), "rt": draw(st.integers(0, 4)) > 0, "token_type": draw(st.sampled_from(["Bearer", "bearer", "example"])),
         "extra": draw(st.sampled_from([None, None, {"example_parameter": "v"}, {"scope": "read"}]))}
    return d


@st.composite
def cc_cases(draw):
    steps = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["token", "token", "refresh", "refresh", "refresh"]),
        "key": st.sampled_from([0, 0, 1, 1, 2, 3]),
        "scope": st.one_of(st.none(), st.none(), SCOPES),
        "late": st.sampled_from([0, 0, 5, 100, 5000]), "give": st.sampled_from([[], [], [], ["client_secret"], ["client_id"], ["client_id", "client_secret"]]),
        "answer": answers()}), min_size=3, max_size=10))
    if draw(st.integers(0, 5)):
        steps[0].update(op="token", answer=dict(steps[0]["answer"], kind="ok", rt=True))
        steps[1]["key"] = steps[0]["key"]
    auth = draw(st.sampled_from([None, None, "client_secret_basic", "client_secret_post", "client_secret_jwt"]))
    # the audience of an assertion is looked up in the provider information
    return {"id": draw(st.one_of(*[TEXT] * 7, st.just("") if auth in (None, "client_secret_basic") else TEXT)), "secret": draw(SECRET), "scope": draw(st.one_of(st.none(), SCOPES)), "auth": auth, "level": draw(st.sampled_from(["client", "client", "service"])),
            "endpoint": draw(st.sampled_from(["service", "provider_info"])) if auth != "client_secret_jwt" else "provider_info", "steps": steps}


def cc_client(c):
    from oidcrp.entity import Entity
    from oidcrp.oauth2 import Client
    conf = {"client_id": c["id"], "client_secret": c["secret"]}
    if c["scope"]:
        conf["behaviour"] = {"scope": list(c["scope"])}
    if c["auth"] == "client_secret_jwt":
        conf.setdefault("behaviour", {})["token_endpoint_auth_signing_alg"] = "HS256"
    if c["endpoint"] == "provider_info":
        conf["provider_info"] = {"token_endpoint": TOKEN_URL, "issuer": "https://as.example.org"}
        conf["issuer"] = "https://as.example.org"
    tok = {"class": "oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken"}
    if c["auth"]:
        tok["kwargs"] = {"conf": {"default_authn_method": c["auth"]}}
    services = {"token": tok, "refresh_token": {"class": "oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken"}}
    client = Client(config=conf, services=services) if c["level"] == "client" else Entity(config=conf, services=services)
    if c["endpoint"] == "service":
        for n in ("accesstoken", "refresh_token"):
            client.client_get("service", n).endpoint = TOKEN_URL
    return client


def answer_of(a, n):
    """(HTTP response, JSON of a successful response or None)"""
    if a["kind"] == "400":
        return response(400, {"error": "invalid_scope"}), None
    if a["kind"] == "500":
        return response(500, "oops", "text/plain"), None
    if a["kind"] == "200 error":
        return response(200, {"error": "invalid_client"}), None
    if a["kind"] == "302":
        return response(302, "", "text/html", headers={"location": "https://elsewhere.example/"}), None
    if a["kind"] == "not json":
        return response(200, "<html>", "application/json"), None
    doc = {"access_token": "at-%d" % n, "token_type": a["token_type"]}
    if a["expires_in"] is not None:
        doc["expires_in"] = a["expires_in"]
    if a["rt"]:
        doc["refresh_token"] = "rt-%d/+=" % n
    doc.update(a["extra"] or {})
    if a["kind"] == "no token":
        del doc["access_token"]
        return response(200, doc), None
    return response(200, doc), doc


def stored(client, key, typ="token_response"):
    from oidcmsg.message import Message
    try:
        return client.client_get("service_context").state.get_item(Message, typ, key).to_dict()
    except KeyError:
        return None


def basic(cid, secret):
    return "Basic " + base64.b64encode("{}:{}".format(quote_plus(cid), quote_plus(secret)).encode()).decode()


def with_expiry(doc, now):
    res = dict(doc)
    if "expires_in" in doc:
        res["expires_in"] = int(doc["expires_in"])
        res["__expires_at"] = int(now) + int(doc["expires_in"])
    if "scope" in doc:
        res["scope"] = doc["scope"].split(" ") if isinstance(doc["scope"], str) else doc["scope"]
    return res


def flat(doc):
    if doc is None:
        return None
    res = dict(doc)
    if isinstance(res.get("scope"), str):
        res["scope"] = res["scope"].split(" ")
    if "expires_in" in res:
        res["expires_in"] = int(res["expires_in"])
    return res


@test(cc_cases(), quick=1600, thorough=20000)
def cc(c, t):
    with World() as world, Clock() as clock:
        current = {}
        world.serve("as.example.org", lambda req: current["resp"])
        client = cc_client(c)
        model = {}
        refreshed = failures = 0
        for n, s in enumerate(c["steps"]):
            clock.advance(s["late"])
            key = KEYS[s["key"]]
            mkey = key or "cc"
            current["resp"], doc = answer_of(s["answer"], n)
            before = {k: stored(client, k) for k in ("cc", "s1", "s2")}
            mark = len(world.log)
            args = {"scope": list(s["scope"])} if s["scope"] else None
            if s["op"] == "refresh":      # isn't part of what is sent
                args = dict(args or {}, **{n: c[n[7:]] for n in s["give"]}) or None
            srv = "accesstoken" if s["op"] == "token" else "refresh_token"
            kw = {"state": key} if key else {}
            expect_rt = (model.get(mkey) or {}).get("refresh_token")

            def call():
                if c["level"] == "client":
                    return client.do_request(srv, request_args=args, **kw)
                service = client.client_get("service", srv)
                info = service.get_request_parameters(request_args=args, **kw)
                r = requests.request(info["method"], info["url"], data=info["body"], headers=info["headers"], allow_redirects=False)
                if r.status_code != 200:
                    raise ValueError("refused")
                resp = service.parse_response(r.text, sformat="json", **kw)
                if "error" in resp:
                    raise ValueError("refused")
                service.update_service_context(resp, **({"key": key} if key else {}))
                return resp

            out = attempt(call)
            sent = world.since(mark)
            if s["op"] == "refresh" and expect_rt is None:
                check(not out.ok, "refreshing without a refresh token for key {} gave {}", key, out)
                eq(sent, [], "requests sent without a refresh token")
                t.label("refresh impossible")
            else:
                eq(len(sent), 1, "number of requests for %r (%s)" % (s, out))
                r = sent[0]
                eq((r.method, r.url), ("POST", TOKEN_URL), "request")
                eq(r.headers.get("Content-Type"), "application/x-www-form-urlencoded", "content type")
                want = {"grant_type": "client_credentials" if s["op"] == "token" else "refresh_token"}
                scope = s["scope"] or c["scope"]
                if scope:
                    want["scope"] = " ".join(scope)
                got = single(r.form)
                auth = r.headers.get("Authorization")
                if s["op"] == "refresh":
                    refreshed += 1
                    eq(auth, "Bearer " + expect_rt, "authorization of the refresh request")
                    check(c["secret"] not in r.body and c["secret"] not in json.dumps(got), "the secret is in the refresh request")
                elif c["auth"] in (None, "client_secret_basic"):
                    eq(auth, basic(c["id"], c["secret"]), "client authentication")
                    check("client_secret" not in got, "the secret is in the body {}", got)
                elif c["auth"] == "client_secret_post":
                    eq(auth, None, "Authorization header")
                    want.update(client_id=c["id"], client_secret=c["secret"])
                else:
                    eq(auth, None, "Authorization header")
                    ca = got.pop("client_assertion", "")
                    eq(got.pop("client_assertion_type", None), "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion type")
                    body = json.loads(base64.urlsafe_b64decode(ca.split(".")[1] + "=="))
                    eq((body["iss"], body["sub"]), (c["id"], c["id"]), "issuer and subject of the assertion")
                    if "client_id" in got:
                        eq(got.pop("client_id"), c["id"], "client id")
                eq(got, want, "parameters of the %s request" % s["op"])
                if doc is not None:
                    check(out.ok, "a correct response to {} was refused: {}", s, out)
                    eq(out.value.get("access_token"), doc["access_token"], "returned access token")
                    new = with_expiry(doc, clock.now)
                    if s["op"] == "refresh" and "refresh_token" not in new:
                        new["refresh_token"] = expect_rt
                    model[mkey] = new
                else:
                    failures += 1
                    if c["level"] == "client" and out.ok:
                        check(out.value.get("error"), "a failed request returned {}", out)
            for k in ("cc", "s1", "s2"):
                eq(flat(stored(client, k)), model.get(k), "stored response for key %r after step %d %r (was %r)" % (k, n, s, before[k]))
            check(stored(client, "") is None, "something was stored under an empty key")
        t.label(c["level"], "auth %s" % c["auth"])
        if refreshed > 1 or len(model) > 1 or (refreshed and failures):
            t.nontriv("refreshes %d" % min(refreshed, 3), "keys %d" % len(model))


# -- plain OAuth2 code logins -----------------------------------------------------------------------------------------

ISS = "https://as.example.org"


@st.composite
def code_cases(draw):
    n = draw(st.integers(1, 3))
    ops = []
    for i in range(draw(st.integers(0, n))):
        # logins that come to something
        ops += [{"op": op, "login": i, "bad": "state", "late": 0, "answer": {"kind": "ok", "expires_in": expiry(draw), "rt": True, "token_type": "Bearer", "extra": None}}
                for op in draw(st.sampled_from([["answer", "exchange"], ["answer"], ["exchange"]]))]
    if ops:
        ops = draw(st.permutations(ops)) if draw(st.booleans()) else ops
    for _ in range(draw(st.integers(2, 8))):
        ops.append({"op": draw(st.sampled_from(["answer", "answer", "exchange", "exchange", "refresh", "refresh", "bad"])), "login": draw(st.integers(0, n - 1)),
                    "bad": draw(st.sampled_from(["state", "iss", "client_id", "no code", "error", "no state"])), "late": draw(st.sampled_from([0, 10, 4000])),
                    "answer": draw(answers(("ok",) * 5 + ("400", "no token", "500")))})
    return {"level": draw(st.sampled_from(["client", "client", "handler"])), "id": draw(TEXT), "secret": draw(SECRET), "scope": draw(st.one_of(st.none(), SCOPES)),
            "auth": draw(st.sampled_from([None, "client_secret_post"])), "userinfo": draw(st.sampled_from([None, "bearer", "github", "linkedin"])),
            "uris": draw(st.lists(st.sampled_from(["https://rp.example.com/cb", "https://rp.example.com/cb?x=1&y=%20", "http://localhost:8090/cb", "com.example.app:/cb"]), min_size=1, max_size=3, unique=True)),
            "logins": [{"uri": draw(st.one_of(st.none(), st.integers(0, 2))), "scope": draw(st.one_of(st.none(), SCOPES)), "state": "state-%d" % i + draw(st.sampled_from(["", "+/=", " &"])),
                        "via": draw(st.sampled_from(["args", "kwargs"]))} for i in range(n)],
            "iss": draw(st.booleans()), "ops": ops}


OAUTH2 = {"authorization": {"class": "oidcrp.oauth2.authorization.Authorization"}, "access_token": {"class": "oidcrp.oauth2.access_token.AccessToken"},
          "refresh_access_token": {"class": "oidcrp.oauth2.refresh_access_token.RefreshAccessToken"}}


def o2_services(c):
    import copy
    s = copy.deepcopy(OAUTH2)
    if c["auth"]:
        for n in ("access_token", "refresh_access_token"):
            s[n]["kwargs"] = {"conf": {"default_authn_method": c["auth"]}}
    if c["userinfo"]:
        if c["userinfo"] == "github":
            s["access_token"]["class"] = "oidcrp.provider.github.AccessToken"
            s["userinfo"] = {"class": "oidcrp.provider.github.UserInfo"}
        elif c["userinfo"] == "linkedin":
            s["access_token"]["class"] = "oidcrp.provider.linkedin.AccessToken"
            s["userinfo"] = {"class": "oidcrp.provider.linkedin.UserInfo"}
        else:
            s["userinfo"] = {"class": "oidcrp.oidc.userinfo.UserInfo"}
    return s


def o2_conf(c):
    conf = {"client_id": c["id"], "client_secret": c["secret"], "redirect_uris": list(c["uris"]), "issuer": ISS, "behaviour": {"response_types": ["code"]},
            "provider_info": {"issuer": ISS, "authorization_endpoint": ISS + "/authorize", "token_endpoint": TOKEN_URL, "userinfo_endpoint": ISS + "/user"}}
    if c["scope"]:
        conf["behaviour"]["scope"] = list(c["scope"])
    return conf


class Run:
    """One client with its server; the model of each login is a dictionary."""

    def __init__(self, c, world):
        from oidcrp import oauth2
        self.c, self.world, self.current = c, world, {}
        world.serve("as.example.org", self.serve)
        self.handler = None
        if c["level"] == "client":
            self.client = oauth2.Client(config=o2_conf(c), services=o2_services(c))
        else:
            from oidcrp.rp_handler import RPHandler
            self.handler = RPHandler(base_url="https://rp.example.com", client_configs={ISS: dict(o2_conf(c), services=o2_services(c))}, client_cls=oauth2.Client, keyjar=W.keyjar_of("rp"), hash_seed="s")
            self.client = None
        self.logins = {}

    def serve(self, req):
        if req.path == "/user":
            tok = (req.headers.get("Authorization") or "")[7:]
            return response(200, {"sub": "sub of " + tok, "login": tok, "id": "id of " + tok, "lastName": "L"})
        return self.current["resp"]

    def expect_no_secret(self, text):
        check(self.c["secret"] not in text and quote_plus(self.c["secret"]) not in text, "the client secret is in {!r}", text)

    def begin(self, i):
        lg = self.c["logins"][i]
        args = {}
        if lg["uri"] is not None:
            args["redirect_uri"] = self.c["uris"][lg["uri"] % len(self.c["uris"])]
        if lg["scope"]:
            args["scope"] = list(lg["scope"])
        if self.handler:
            d = self.handler.begin(ISS, req_args=dict(args) or None)
            if not self.client:
                self.client = self.handler.issuer2rp[ISS]
            url, state = d["url"], d["state"]
        else:
            state = lg["state"]
            srv = self.client.client_get("service", "authorization")
            # the state database entry is what a user of the client makes before starting (see RPHandler)
            self.client.client_get("service_context").state._db[state] = json.dumps({"iss": ISS})
            kw = {}
            args["response_type"] = "code"
            if lg["via"] == "kwargs":
                kw["state"] = state
            else:
                args["state"] = state
            url = srv.get_request_parameters(request_args=dict(args), **kw)["url"]
        u = urlsplit(url)
        eq("{}://{}{}".format(u.scheme, u.netloc, u.path), ISS + "/authorize", "authorization endpoint")
        eq(u.fragment, "", "fragment of the authorization request")
        got = single(query_of(url))
        want = {"response_type": "code", "client_id": self.c["id"], "redirect_uri": args.get("redirect_uri") or self.c["uris"][0], "state": state}
        scope = args.get("scope") or self.c["scope"]
        if scope:
            want["scope"] = " ".join(scope)
        if self.handler:
            got.pop("nonce", None)
            if not scope:
                got.pop("scope", None)
        eq(got, want, "authorization request")
        self.expect_no_secret(url)
        self.logins[i] = {"state": state, "uri": want["redirect_uri"], "scope": got.get("scope"), "code": None, "at": None, "rt": None, "token": None, "refresh": None}

    def auth_response(self, i, n, over=None, drop=()):
        m = self.logins[i]
        r = {"code": "code-%d-%d +/" % (i, n), "state": m["state"]}
        if self.c["iss"]:
            r.update(iss=ISS, client_id=self.c["id"])
        r.update(over or {})
        for k in drop:
            r.pop(k, None)
        return r

    def parse(self, r):
        srv = self.client.client_get("service", "authorization")
        if self.handler:
            resp = self.handler.finalize_auth(self.client, ISS, r)
            if "error" in resp:
                raise ValueError("refused")
            return resp
        from urllib.parse import urlencode
        resp = srv.parse_response(urlencode(r), sformat="urlencoded", state=r.get("state", ""))
        if "error" in resp:
            raise ValueError("refused")
        self.client.client_get("service_context").state.get_iss(resp["state"])
        srv.update_service_context(resp, key=resp["state"])
        return resp

    def check_token_request(self, i, sent, want):
        eq(len(sent), 1, "number of token requests")
        r = sent[0]
        eq((r.method, r.url), ("POST", TOKEN_URL), "token request")
        got = single(r.form)
        if self.c["auth"] == "client_secret_post":
            eq(r.headers.get("Authorization"), None, "Authorization header")
            want = dict(want, client_id=self.c["id"], client_secret=self.c["secret"])
        else:
            eq(r.headers.get("Authorization"), basic(self.c["id"], self.c["secret"]), "client authentication")
            self.expect_no_secret(r.body)
            # the identifier in the body is allowed as long as it is the right one
            if "client_id" in got:
                eq(got.pop("client_id"), self.c["id"], "client id")
        if "state" in got:
            eq(got.pop("state"), self.logins[i]["state"], "state of the token request")
        if want["grant_type"] == "refresh_token" and "scope" in got and "scope" not in want:
            scope = self.logins[i]["scope"] or (" ".join(self.c["scope"]) if self.c["scope"] else None)
            check(scope is None or got["scope"] in (scope, self.logins[i].get("granted"), " ".join(self.c["scope"] or [])), "scope of the refresh request: {}", got["scope"])
            got.pop("scope")
        eq(got, want, "parameters of the token request")

    def took(self, i, typ, doc, now):
        m = self.logins[i]
        m["at"] = doc["access_token"]
        if doc.get("refresh_token"):
            m["rt"] = doc["refresh_token"]
        if doc.get("scope"):
            m["granted"] = doc["scope"]
        new = with_expiry(doc, now)
        if typ == "token":
            m["token"] = new
        else:
            if "refresh_token" not in new and m["refresh"] and "refresh_token" in m["refresh"]:
                new["refresh_token"] = m["refresh"]["refresh_token"]
            m["refresh"] = new

    def verify_stores(self, what):
        for i, m in self.logins.items():
            eq(flat(stored(self.client, m["state"])), m["token"], "token response kept for login %d after %s" % (i, what))
            eq(flat(stored(self.client, m["state"], "refresh_token_response")), m["refresh"], "refresh response kept for login %d after %s" % (i, what))
            a = stored(self.client, m["state"], "auth_response")
            eq((a or {}).get("code"), m["code"], "code kept for login %d after %s" % (i, what))
            q = stored(self.client, m["state"], "auth_request")
            eq((q["redirect_uri"], q["state"]), (m["uri"], m["state"]), "authorization request kept for login %d after %s" % (i, what))


@test(code_cases(), quick=1100, thorough=14000)
def code(c, t):
    with World() as world, Clock() as clock:
        run = Run(c, world)
        for i in range(len(c["logins"])):
            run.begin(i)
        run.verify_stores("the start")
        states = [m["state"] for m in run.logins.values()]
        eq(len(set(states)), len(states), "number of different states")
        github = c["userinfo"] == "github"
        order, refreshes = [], 0
        for n, o in enumerate(c["ops"]):
            clock.advance(o["late"])
            i = o["login"]
            m = run.logins[i]
            mark = len(world.log)
            if o["op"] == "bad":
                over, drop = {}, ()
                if o["bad"] == "state":
                    over["state"] = "somebody-else"
                elif o["bad"] == "iss":
                    over["iss"] = "https://evil.example"
                elif o["bad"] == "client_id":
                    over["client_id"] = c["id"] + "x"
                elif o["bad"] == "no code":
                    drop = ("code",)
                elif o["bad"] == "error":
                    over["error"] = "access_denied"
                    drop = ("code",)
                else:
                    drop = ("state",)
                out = attempt(run.parse, run.auth_response(i, n, over, drop))
                check(not out.ok, "response with wrong {} was accepted: {}", o["bad"], out)
                eq(world.since(mark), [], "requests caused by a wrong response")
                t.label("bad " + o["bad"])
            elif o["op"] == "answer":
                if m["at"]:
                    continue
                r = run.auth_response(i, n)
                resp = attempt(run.parse, r)
                check(resp.ok, "correct authorization response was refused: {}", resp)
                eq(resp.value["code"], r["code"], "code")
                m["code"] = r["code"]
            elif o["op"] == "exchange":
                if m["at"] or (o["answer"]["rt"] is None):
                    continue
                run.current["resp"], doc = answer_of(o["answer"], n)
                if github and doc is not None:
                    from urllib.parse import urlencode
                    run.current["resp"] = response(200, urlencode(doc), "application/x-www-form-urlencoded")
                if c["userinfo"] == "linkedin" and doc is not None:
                    if "expires_in" not in doc:
                        doc = None       # its tokens always say for how long
                    elif not int(doc["expires_in"]):
                        continue         # oidcmsg takes a required zero for a missing value
                whole = run.handler is not None and m["code"] is None
                if whole:
                    r = run.auth_response(i, n)
                    m["code"] = r["code"]
                    out = attempt(run.handler.finalize, ISS, r)
                elif run.handler:
                    out = attempt(run.handler.get_tokens, m["state"])
                else:
                    if m["code"] is None:
                        continue
                    out = attempt(run.client.do_request, "accesstoken", state=m["state"])
                sent = world.since(mark)
                run.check_token_request(i, [r for r in sent if r.path == "/token"], {"grant_type": "authorization_code", "code": m["code"], "redirect_uri": m["uri"]})
                if doc is None:
                    check(not out.ok or "error" in out.value, "failed exchange gave {}", out)
                else:
                    check(out.ok and "error" not in out.value, "correct token response was refused: {}", out)
                    run.took(i, "token", doc, clock.now)
                    if whole:
                        v = out.value
                        eq((v["state"], v["token"], v["id_token"]), (m["state"], doc["access_token"], None), "result of the login")
                        if c["userinfo"]:
                            ui = [r for r in sent if r.path == "/user"]
                            eq([r.headers.get("Authorization") for r in ui], ["Bearer " + doc["access_token"]], "token used at the userinfo endpoint")
                            eq(v["userinfo"]["login"], doc["access_token"], "user information of the login")
                        else:
                            check(not v["userinfo"], "user information from nowhere: {}", v["userinfo"])
                        t.label("whole login")
                    else:
                        eq(out.value["access_token"], doc["access_token"], "access token")
                    order.append(i)
            else:
                run.current["resp"], doc = answer_of(o["answer"], n)
                if run.handler:
                    out = attempt(run.handler.refresh_access_token, m["state"])
                else:
                    out = attempt(run.client.do_request, "refresh_token", state=m["state"])
                sent = world.since(mark)
                if m["rt"] is None:
                    check(not out.ok, "refresh without a refresh token gave {}", out)
                    eq(sent, [], "requests without a refresh token")
                else:
                    run.check_token_request(i, sent, {"grant_type": "refresh_token", "refresh_token": m["rt"]})
                    if doc is None:
                        check(not out.ok or "error" in out.value, "failed refresh gave {}", out)
                    else:
                        check(out.ok, "correct refresh response was refused: {}", out)
                        run.took(i, "refresh", doc, clock.now)
                        refreshes += 1
                        order.append(i)
            run.verify_stores("step %d %r" % (n, o))
        t.label(c["level"], "auth %s" % c["auth"], "userinfo %s" % c["userinfo"])
        if len(set(order)) > 1 or refreshes:
            t.nontriv("logins %d" % len(set(order)), "refreshes %d" % min(refreshes, 3))
