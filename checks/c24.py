"""C24: HTTP requests and cookies."""
import copy
import os
import time
from email.utils import formatdate
from http.cookies import SimpleCookie
from urllib.parse import parse_qsl, urlencode

from hypothesis import strategies as st

import world as W
from clock import Clock
from op import OP, TENANTS, World, client_conf, ctx, handler, response, services
from vt import attempt, check, eq, test

for _name in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"):    # what requests would use instead of verify=True
    os.environ.pop(_name, None)

RULE = ("requests: sequences of requests through one HTTPLib with generated defaults, arguments, callback, answers (redirects, cookies, failures); what arrives at the transport is compared with what was asked for, and all arguments and defaults are compared before and after. "
        "cookies: histories of Set-Cookie headers on a controlled clock against a small cookie model. whole: complete logins with generated HTTP parameters, which every request (metadata, registration, keys, tokens, user information) must use. "
        "Non-trivial: a callback, defaults or several requests / a cookie replaced, expired or removed / dynamic registration or several logins.")
ASSUMPTIONS = ["that received cookies are sent back is not claimed (the library never does, and has no notion of which host a cookie belongs to); if one is sent it must belong to the host",
               "only one of Max-Age and Expires is generated for a cookie, and one cookie per response", "if both the defaults and the caller give headers, only the caller's are required"]

HOSTS = ["a.example.org", "b.example.org"]
HV = st.text("abcXYZ019._-~/=:;, ", min_size=1, max_size=10).map(lambda s: s.strip() or "v")
HNAME = st.sampled_from(["X-A", "X-B", "Accept", "Authorization", "Content-Type", "User-Agent"])
HEADERS = st.dictionaries(HNAME, HV, max_size=3)
DATA = st.one_of(st.none(), st.text("abc&=+ %é", max_size=20), st.dictionaries(st.sampled_from(["a", "b c", "é"]), st.text("xyz &=é", min_size=1, max_size=6), min_size=1, max_size=3))
CNAME = st.sampled_from(["sid", "lb", "x-1"])
COOKIE = st.fixed_dictionaries({"name": CNAME, "value": st.text("abcXYZ019-_./+!$*", min_size=0, max_size=8), "quoted": st.sampled_from([False, False, True, "inner"]),
                                "domain": st.sampled_from([None, None, ".example.org", "a.example.org"]), "path": st.sampled_from([None, None, "/", "/x"]), "secure": st.booleans(), "httponly": st.booleans(),
                                "max_age": st.sampled_from([None, None, 0, 1, 10, 3600, 10 ** 8, -1]), "expires": st.sampled_from([None, None, None, -100, 5, 3600, 10 ** 8]), "case": st.sampled_from(["Max-Age", "max-age"])})


@st.composite
def calls(draw):
    return {"via": draw(st.sampled_from(["call", "call", "send"])), "method": draw(st.sampled_from(["GET", "GET", "POST", "POST", "PUT", "DELETE", "default"])), "host": draw(st.integers(0, 1)),
            "path": draw(st.sampled_from(["/", "/x", "/x/y?a=1&b=%20", "/?q"])), "data": draw(DATA), "headers": draw(st.one_of(st.none(), HEADERS)),
            "extra": draw(st.sampled_from([{}, {}, {"timeout": 7}, {"verify": False}, {"params": {"p": "1 2"}}, {"cookies": {"own": "v"}}])),
            "status": draw(st.sampled_from([200, 200, 200, 204, 301, 302, 303, 307, 400, 500])), "cookie": draw(st.one_of(st.none(), COOKIE)), "fails": draw(st.sampled_from([False] * 6 + [True])), "late": draw(st.sampled_from([0, 0, 3, 100]))}


@st.composite
def requests_cases(draw):
    return {"defaults": draw(st.sampled_from([None, {}, {"verify": False}, {"verify": True, "timeout": 3}, {"timeout": 5, "headers": {"X-D": "default"}}, {"cert": ["/c.pem", "/k.pem"]}, {"verify": "/ca.pem", "headers": {"User-Agent": "me/1"}}])),
            "callback": draw(st.sampled_from([None, None, "same", "header", "data", "timeout"])), "events": draw(st.booleans()), "calls": draw(st.lists(calls(), min_size=1, max_size=6))}


def raw_value(c):
    return '\\"' + c["value"] + '\\"' if c["quoted"] == "inner" else c["value"]


def set_cookie_header(c, now):
    v = raw_value(c)
    s = '{}="{}"'.format(c["name"], v) if c["quoted"] else "{}={}".format(c["name"], v)
    if c["domain"]:
        s += "; Domain=" + c["domain"]
    if c["path"]:
        s += "; Path=" + c["path"]
    if c["max_age"] is not None:
        s += "; {}={}".format(c["case"], c["max_age"])
    elif c["expires"] is not None:
        s += "; Expires=" + formatdate(int(now) + c["expires"], usegmt=True)
    if c["secure"]:
        s += "; Secure"
    if c["httponly"]:
        s += "; HttpOnly"
    return s


AUTOMATIC = {"user-agent", "accept-encoding", "accept", "connection", "content-length", "content-type", "cookie"}


@test(requests_cases(), quick=1500, thorough=20000)
def requests_(c, t):
    from oidcrp.http import HTTPLib
    with World() as world, Clock() as clock:
        answer = {}
        for h in HOSTS:
            world.serve(h, lambda req: answer["r"])
        defaults = copy.deepcopy(c["defaults"])
        if defaults and "cert" in defaults:
            defaults["cert"] = tuple(defaults["cert"])
        given = copy.deepcopy(defaults)
        lib = HTTPLib(defaults)
        eq(defaults, given, "the HTTP parameters given")
        kept = copy.deepcopy(lib.request_args)
        seen = []
        if c["callback"]:
            def callback(method, url, **kw):
                seen.append((method, url, copy.deepcopy(kw)))
                kw = dict(kw)
                if c["callback"] == "header":
                    kw["headers"] = dict(kw.get("headers") or {}, **{"X-Callback": "%d" % len(seen)})
                elif c["callback"] == "data":
                    kw["data"] = "from the callback"
                elif c["callback"] == "timeout":
                    kw["timeout"] = 99
                return kw
            lib.req_callback = callback
        if c["events"]:
            class Events(list):
                def store(self, typ, obj, ref=""):
                    self.append((typ, obj, ref))
            lib.events = Events()
        jar = {}
        for n, s in enumerate(c["calls"]):
            clock.advance(s["late"])
            url = "https://" + HOSTS[s["host"]] + s["path"]
            kw = copy.deepcopy(s["extra"])
            for k in ("data", "headers"):
                if s[k] is not None:
                    kw[k] = copy.deepcopy(s[k])
            if s["data"] is not None and "params" in kw and not s["path"].startswith("/x"):
                del kw["params"]
            if s["fails"]:
                answer["r"] = W.Unreachable("no")
            else:
                answer["r"] = response(s["status"], "", "text/plain", headers={"location": "https://b.example.org/elsewhere"} if 300 <= s["status"] < 400 else {})
                if s["cookie"]:
                    answer["r"].headers["set-cookie"] = set_cookie_header(s["cookie"], clock.now)
            before, mark, nseen = copy.deepcopy(kw), len(world.log), len(seen)
            func = lib if s["via"] == "call" else lib.send
            out = attempt(func, url, **kw) if s["method"] == "default" else attempt(func, url, s["method"], **kw)
            method = "GET" if s["method"] == "default" else s["method"]
            eq(kw, before, "the arguments of the caller after the request")
            eq(lib.request_args, kept, "the default arguments after the request")
            eq(defaults, given, "the HTTP parameters given, after the request")
            sent = world.since(mark)
            eq(len(sent), 1, "number of requests sent (%s)" % out)
            if s["fails"]:
                check(not out.ok and isinstance(out.exc, W.Unreachable), "a failing transport gave {}", out)
            else:
                check(out.ok and out.value is answer["r"], "the response was not returned: {}", out)
            r = sent[0]
            want = dict({"allow_redirects": False}, **copy.deepcopy(given or {}))
            want.update(before)
            if c["callback"]:
                eq(len(seen), nseen + 1, "number of callback calls")
                m, u, k = seen[-1]
                eq((m, u), (method, url), "callback arguments")
                for name in want:
                    eq(k.get(name), want[name], "callback argument %s" % name)
                if c["callback"] == "header":
                    want["headers"] = dict(want.get("headers") or {}, **{"X-Callback": "%d" % len(seen)})
                elif c["callback"] == "data":
                    want["data"] = "from the callback"
                elif c["callback"] == "timeout":
                    want["timeout"] = 99
            eq(r.method, method, "method")
            full = url
            if "params" in want:
                full += ("&" if "?" in full else "?") + urlencode(want["params"])
            eq((r.base, sorted(r.query)), (full.split("?")[0], sorted(parse_qsl(full.partition("?")[2], keep_blank_values=True))), "URL")
            if isinstance(want.get("data"), dict):
                eq(sorted(r.form), sorted(want["data"].items()), "form")
            else:
                eq(r.body, want.get("data") or "", "body")
            for name, v in (want.get("headers") or {}).items():
                eq(r.headers.get(name), v, "header %s" % name)
            stray = {k.lower() for k in r.headers} - AUTOMATIC - {k.lower() for k in (want.get("headers") or {})} - {k.lower() for k in ((given or {}).get("headers") or {})}
            eq(stray, set(), "headers nobody asked for")
            eq(r.kwargs.get("verify"), want.get("verify", True), "verify")
            eq(r.kwargs.get("timeout"), want.get("timeout"), "timeout")
            eq(r.kwargs.get("cert"), want.get("cert"), "client certificate")
            own = want.get("cookies") or {}
            for name, v in (p.split("=", 1) for p in (r.headers.get("Cookie") or "").split("; ") if p):
                check(own.get(name) == v or jar.get((s["host"], name)) == v, "cookie {}={} was not received from {}", name, v, HOSTS[s["host"]])
            for name in own:
                check(name + "=" + own[name] in (r.headers.get("Cookie") or ""), "the cookie of the caller is missing: {}", r.headers.get("Cookie"))
            if s["cookie"] and not s["fails"]:
                jar[(s["host"], s["cookie"]["name"])] = raw_value(s["cookie"])
            if c["events"] and not s["fails"]:
                eq([e[0] for e in lib.events[-1:]], ["HTTP response"], "event")
                check(lib.events[-1][1] is answer["r"] and lib.events[-1][2] == url, "event of another response")
        if c["callback"] or c["defaults"] or len(c["calls"]) > 1:
            t.nontriv("callback %s" % c["callback"], "calls %d" % min(len(c["calls"]), 4))


# -- cookies ------------------------------------------------------------------------------------------------------------

COOKIES = st.lists(st.fixed_dictionaries({"cookie": COOKIE, "late": st.sampled_from([0, 0, 1, 5, 11, 4000]), "via": st.sampled_from(["response", "response", "request", "morsel"])}), min_size=1, max_size=8)


def live(lib):
    now = time.time()
    return {(k.domain, k.path, k.name): (k.value, k.expires, bool(k.secure)) for k in lib.cookiejar if not k.is_expired(now)}


@test(COOKIES, quick=2500, thorough=30000)
def cookies(c, t):
    from oidcrp.http import HTTPLib
    from oidcrp.util import set_cookie
    with World() as world, Clock() as clock:
        lib = HTTPLib()
        model = {}
        events = set()
        for n, s in enumerate(c):
            clock.advance(s["late"])
            k = s["cookie"]
            head = set_cookie_header(k, clock.now)
            r = response(200, "", headers={"set-cookie": head})
            if s["via"] == "request":
                world.serve(HOSTS[0], lambda req: r)
                lib("https://" + HOSTS[0] + "/")
            elif s["via"] == "response":
                lib.set_cookie(r)
            else:
                set_cookie(lib.cookiejar, SimpleCookie(head))
            key = (k["domain"] or "", k["path"] or "", k["name"])
            expires = None
            if k["max_age"] is not None:
                expires = int(clock.now) + k["max_age"]
            elif k["expires"] is not None:
                expires = int(clock.now) + k["expires"]
            if key in model:
                events.add("replaced")
            model[key] = (raw_value(k), expires, k["secure"])
            for m, v in list(model.items()):
                if v[1] is not None and v[1] <= clock.now:
                    del model[m]
                    events.add("gone")
            eq(live(lib), model, "live cookies after {!r}".format(head))
            if k["max_age"] is not None and k["max_age"] <= 0:
                check(not [x for x in lib.cookiejar if (x.domain, x.path, x.name) == key], "the cookie is not removed")
                events.add("removed")
            names = {}
            for m, v in model.items():
                names.setdefault(m[2], set()).add(v[0])
            got = lib._cookies()
            for name, values in names.items():
                check(name in got, "cookie {} is not among {}", name, got)
        if events:
            t.nontriv(*events)


# -- all requests use the HTTP parameters ----------------------------------------------------------------------------------


@st.composite
def whole_cases(draw):
    return {"tenants": draw(st.sampled_from(TENANTS)), "single": draw(st.sampled_from([False, False, True])), "verify_ssl": draw(st.sampled_from([None, True, False])),
            "params": draw(st.sampled_from([None, {}, {"verify": False}, {"verify": "/etc/ca.pem", "timeout": 3}, {"timeout": 4}, {"verify": True, "cert": ["/c.pem", "/k.pem"]}, {"timeout": [2, 5], "verify": False}])),
            "dynamic": draw(st.booleans()), "ops": draw(st.integers(1, 2)), "logins": draw(st.lists(st.integers(0, 1), min_size=1, max_size=3)), "refresh": draw(st.booleans()), "alg": draw(st.sampled_from(["RS256", "ES256"])), "keyjar": draw(st.booleans())}


@test(whole_cases(), quick=240, thorough=1500)
def whole(c, t):
    params = c["params"] and {k: tuple(v) if isinstance(v, list) else v for k, v in c["params"].items()}
    given = dict(params or {})
    if not params and c["verify_ssl"] is False and not c["single"]:
        given["verify"] = False
    with World() as world:
        ops = [OP(world, i, alg=c["alg"], tenant=c["tenants"][i]) for i in range(c["ops"])]
        confs = {op.issuer: client_conf(op, dynamic=c["dynamic"]) for op in ops}
        kj = W.keyjar_of("rp")
        # a key jar without HTTP parameters gets those of the handler, otherwise they are set as the example application does
        kj.httpc_params = {} if c["keyjar"] or params is None else params
        kw = {} if c["verify_ssl"] is None else {"verify_ssl": c["verify_ssl"]}
        if params is not None:
            kw["httpc_params"] = params
        if c["single"]:
            return alone(c, t, world, ops, params, given)
        rph = handler(confs, keyjar=kj, **kw)
        for i in c["logins"]:
            op = ops[i % len(ops)]
            url = rph.begin(op.issuer)["url"]
            lg, resp = op.authorize(url)
            res = rph.finalize(op.issuer, resp)
            check("error" not in res, "login failed: {}", res)
            if c["refresh"]:
                rph.refresh_access_token(res["state"])
        judged(c, t, world, params, given)


def alone(c, t, world, ops, params, given):
    """A client without a handler"""
    from oidcrp.oidc import RP
    for op in ops:
        conf = client_conf(op, dynamic=c["dynamic"])
        conf["base_url"] = "https://rp.example.com"
        conf["hash_seed"] = "x"
        conf.setdefault("redirect_uris", ["https://rp.example.com/cb"])
        client = RP(config=conf, services=services(), **({} if params is None else {"httpc_params": params}), **({} if c["verify_ssl"] is None else {"verify_ssl": c["verify_ssl"]}))
        check(client.httpc_params.get("verify", True) == given.get("verify", True), "{} for {}", client.httpc_params, given)
        for name, want in (("provider_info", True), ("registration", c["dynamic"])):
            if want:
                client.do_request(name)
        url = client.client_get("service", "authorization").get_request_parameters(request_args={"state": ctx(client).state.create_state(op.issuer), "redirect_uri": conf["redirect_uris"][0], "response_type": "code", "scope": ["openid"], "nonce": "n-0"})["url"]
        lg, resp = op.authorize(url)
        srv = client.client_get("service", "authorization")
        r = srv.parse_response(resp, sformat="dict")
        srv.update_service_context(r, key=resp["state"])
        client.do_request("accesstoken", state=resp["state"], request_args={"code": resp["code"], "redirect_uri": conf["redirect_uris"][0], "state": resp["state"], "grant_type": "authorization_code"})
        client.do_request("userinfo", state=resp["state"])
    judged(c, t, world, params, given)


def judged(c, t, world, params, given):
    if params:
        eq(params, given, "the HTTP parameters given")
    kinds = set()
    for r in world.log:
        kinds.add(r.path.rsplit("/", 1)[-1])
        eq(r.kwargs.get("verify"), given.get("verify", True), "verify of the request to %s" % r.url)
        eq(r.kwargs.get("cert"), given.get("cert"), "client certificate of the request to %s" % r.url)
        if "timeout" in given:
            eq(r.kwargs.get("timeout"), given["timeout"], "timeout of the request to %s" % r.url)
    check({"openid-configuration", "jwks.json", "token", "userinfo"} <= kinds, "not everything was requested: {}", kinds)
    if c["dynamic"] or len(c["logins"]) > 1:
        t.nontriv("dynamic %s" % c["dynamic"], *kinds)
