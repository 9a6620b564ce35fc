"""C35: A service is what its definition says, for exactly the client it was defined for."""
import copy
import json

from hypothesis import strategies as st

import hooks
from op import OP, World, client_conf, ctx, handler, query_of, services, single
from oidcrp.util import importer
from vt import attempt, check, eq, test

RULE = ("case = service definitions (class by name, as an object or of the application's own; modifiers before and after the request is made; default request arguments, HTTP method, arguments for the modifiers) "
        "for two clients that share definitions or not, then logins, refreshes and user info at both. Each request as the provider got it has to carry the marks of the modifiers of that service of that client in the order given, and the log of the modifiers says what they were called with. "
        "Non-trivial: a modifier of a definition was run, or a service of the application's own was used.")
ASSUMPTIONS = ["modifiers keep to the interface of the library's own"]

KIND = {"authorization": "Authorization", "accesstoken": "AccessToken", "refresh_token": "RefreshAccessToken", "userinfo": "UserInfo"}
BUILTIN = {"authorization": "oidcrp.oidc.authorization.Authorization", "accesstoken": "oidcrp.oidc.access_token.AccessToken", "refresh_token": "oidcrp.oidc.refresh_access_token.RefreshAccessToken", "userinfo": "oidcrp.oidc.userinfo.UserInfo"}


@st.composite
def definitions(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    res = {}
    for name in KIND:
        res[name] = {"cls": d("name", "name", "object", "own name", "own object"), "pre": draw(st.lists(st.sampled_from("abc"), max_size=3)), "post": draw(st.lists(st.sampled_from("def"), max_size=3)),
                     "odd": d(None, None, None, "pre", "post"),
                     "conf": d(None, None, {}, "yes")}
    res["userinfo"]["method"] = d("GET", "GET", "POST", None)
    res["authorization"]["args"] = d(None, {"max_age": 0}, {"ui_locales": ["sv"], "max_age": 7}, {"claims_locales": ["fi"]})
    return res


CASES = st.fixed_dictionaries({"defs": st.tuples(definitions(), definitions()), "shared": st.sampled_from([False, False, True]), "ops": st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["login", "login", "refresh", "userinfo"])), min_size=1, max_size=6), "pkce": st.booleans(), "req": st.sampled_from([None, {"max_age": 99}, {"x_trace": "z"}])})


def build(spec):
    out = services()
    for name, s in spec.items():
        key = next(k for k, v in out.items() if v["class"] == BUILTIN[name])
        path = "hooks.Own" + KIND[name] if s["cls"].startswith("own") else BUILTIN[name]
        e = {"class": importer(path) if s["cls"].endswith("object") else path}
        conf = {}
        if s["conf"] == "yes":
            conf["pre_construct"] = {"for_pre": name}
        if s.get("method"):
            conf["http_method"] = s["method"]
        if s.get("args"):
            conf["request_args"] = copy.deepcopy(s["args"])
        if conf or s["conf"] is not None:
            e["kwargs"] = {"conf": conf}
        for what, k in (("pre_functions", "pre"), ("post_functions", "post")):
            if s[k] or s["odd"] == k:
                fs = [{"function": "hooks.%s_%s" % (k, x)} for x in s[k]]
                if s["odd"] == k:
                    fs.insert(len(fs) // 2, {"comment": "nothing to run"})
                e[what] = fs
        out[key] = e
    return out


def same(a):
    return json.dumps(a, sort_keys=True, default=repr)


@test(CASES, quick=500, thorough=8000)
def defined(c, t):
    with World() as w:
        del hooks.LOG[:]
        ops = [OP(w, i) for i in (0, 1)]
        defs = list(c["defs"])
        # how a class is named makes no difference
        if c["shared"]:
            defs[1] = defs[0]
        built = [build(d) for d in defs]
        extra = {"add_ons": {"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support", "kwargs": {"code_challenge_length": 64, "code_challenge_method": "S256"}}}} if c["pkce"] else {}
        kw = {"services": built[0]} if c["shared"] else {}
        confs = {"op%d" % i: client_conf(o, "code", **copy.deepcopy(extra)) for i, o in enumerate(ops)}
        if not c["shared"]:
            for i in (0, 1):
                confs["op%d" % i]["services"] = built[i]
        before = same(built)
        rph = handler(confs, **kw)
        asked, logins, ran = [], {}, 0
        for o in ops:
            o.token_hook = lambda req, o=o: (asked.append((o.i, req)), o.token(req))[1]
            h = o.userinfo
            o.userinfo_hook = lambda req, o=o, h=h: (asked.append((o.i, req)), h(req))[1]

        def marks(i, name, sent, start=""):
            """what the modifiers of a service did since the last time"""
            nonlocal ran
            s = defs[i][name]
            trace = "".join(s["pre"]) + "".join(s["post"])
            srv = rph.issuer2rp[ops[i].issuer].client_get("service", name)
            log = list(hooks.LOG)
            del hooks.LOG[:]
            eq([(x["mark"], x["when"]) for x in log], [(x, "pre") for x in s["pre"]] + [(x, "post") for x in s["post"]], "modifiers run for %s of client %d" % (name, i))
            for x in log:
                check(x["service"] is srv, "modifier of {} of client {} was run for {!r}", name, i, x["service"])
                if s["conf"] == "yes" and x["when"] == "pre":
                    eq(x["kw"].get("for_pre"), name, "argument for the modifier")
                else:
                    check("for_pre" not in x["kw"], "argument of another service: {!r}", x["kw"])
                if name != "userinfo":
                    check("state" in x["seen"] or name == "refresh_token" or "redirect_uri" in x["seen"] or x["when"] == "pre", "modifier run before the request had its state: {!r}", x)
            eq(sent.get("x_trace") or "", start + trace, "marks in the request of %s of client %d" % (name, i))
            ran += len(trace)

        for i, what in c["ops"]:
            o, s = ops[i], defs[i]
            if what == "login" or i not in logins:
                b = attempt(rph.begin, "op%d" % i, req_args=copy.deepcopy(c["req"]))
                check(b.ok, "begin: {!r}", b)
                client = rph.issuer2rp[o.issuer]
                for name in KIND:
                    cls = "hooks.Own" + KIND[name] if s[name]["cls"].startswith("own") else BUILTIN[name]
                    srv = client.client_get("service", name)
                    check(type(srv) is importer(cls), "{} of client {} is a {!r}, not a {}", name, i, type(srv), cls)
                    ran += cls.startswith("hooks")
                params = single(query_of(b.value["url"]))
                marks(i, "authorization", params, (c["req"] or {}).get("x_trace", ""))
                for k, v in (s["authorization"]["args"] or {}).items():
                    v = (c["req"] or {}).get(k, v)
                    eq(params.get(k), v[0] if isinstance(v, list) else str(v), "argument %s of the definition" % k)
                if not s["authorization"]["args"]:
                    eq(params.get("max_age"), str(c["req"]["max_age"]) if c["req"] and "max_age" in c["req"] else None, "max_age")
                    check("ui_locales" not in params and "claims_locales" not in params, "arguments of another definition: {!r}", params)
                lg, r = o.authorize(b.value["url"])
                hooks_seen = len(asked)
                token_sent = []
                # token and user info request follow one another
                plain = o.token_hook

                def token(req, i=i, plain=plain):
                    token_sent.append(req)
                    marks(i, "accesstoken", req.params())
                    return plain(req)

                o.token_hook = token
                out = attempt(rph.finalize, o.issuer, r)
                o.token_hook = plain
                check(out.ok and "error" not in out.value, "login: {!r}", out)
                eq(len(token_sent), 1, "token requests")
                logins[i] = b.value["state"]
                check_userinfo(i, s, asked[hooks_seen:], marks)
            elif what == "refresh":
                n = len(asked)
                out = attempt(rph.refresh_access_token, logins[i])
                check(out.ok, "refresh: {!r}", out)
                eq(len(asked) - n, 1, "requests")
                marks(i, "refresh_token", asked[-1][1].params())
            else:
                n = len(asked)
                out = attempt(rph.get_user_info, logins[i])
                check(out.ok, "user info: {!r}", out)
                check_userinfo(i, s, asked[n:], marks)
            eq(same(built), before, "the definitions")
        t.nontriv(ran > 0)


def check_userinfo(i, s, got, marks):
    got = [r for _, r in got if r.path.endswith("userinfo")]
    eq(len(got), 1, "user info requests")
    req = got[0]
    eq(req.method, s["userinfo"]["method"] or "GET", "HTTP method for user info")
    check(req.headers.get("Authorization", "").startswith("Bearer "), "no access token: {!r}", req.headers)
    marks(i, "userinfo", dict(single(query_of(req.url))) if req.method == "GET" else req.params())


@test(st.fixed_dictionaries({"name": st.sampled_from(sorted(KIND)), "what": st.sampled_from(["class", "pre", "post"]), "ref": st.sampled_from(["hooks.Nothing", "nowhere.at.All", "hooks", "hooks."])}), quick=60, thorough=200)
def undefined(c, t):
    """a definition that names something that isn't there is an error, not a service less"""
    with World() as w:
        o = OP(w, 0)
        spec = services()
        key = next(k for k, v in spec.items() if v["class"] == BUILTIN[c["name"]])
        if c["what"] == "class":
            spec[key]["class"] = c["ref"]
        else:
            spec[key][c["what"] + "_functions"] = [{"function": c["ref"]}]
        out = attempt(lambda: handler({"p": client_conf(o)}, services=spec).begin("p"))
        check(not out.ok, "{} {} is used: {!r}", c["what"], c["ref"], out)
        eq(w.log, [], "requests")
        t.nontriv(c["what"])
