"""C25: configuration loading and helpers."""
import copy
import functools
import importlib
import json
import os
import shutil
import tempfile
from urllib.parse import parse_qsl, quote, urlsplit

from hypothesis import strategies as st

from vt import ROOT, attempt, check, eq, test

RULE = ("configuration: generated configuration trees (attributes in lower or upper case, absent or empty; placeholders and file names at several depths, and in places where they mean nothing), loaded from a dictionary, a YAML or a JSON file, "
        "alone or inside a surrounding configuration, with or without domain, port and base path arguments; compared with an independent resolution of the tree. helpers: generated arguments against reference implementations. "
        "Non-trivial: placeholders or files to resolve below the top level / arguments where the reference distinguishes cases.")
ASSUMPTIONS = ["base paths are absolute", "configured URIs contain no other braces than the placeholders", "media types that merely start with a known one are not generated"]

URIS = ["redirect_uris", "post_logout_redirect_uri", "post_logout_redirect_uris", "frontchannel_logout_uri", "backchannel_logout_uri", "issuer", "base_url"]
FILES = ["server_key", "server_cert", "filename", "template_dir", "private_path", "public_path", "db_file", "jwks_file"]

HOSTPART = st.sampled_from(["https://{domain}:{port}", "https://{domain}", "https://rp.example.com", "http://localhost:{port}", "https://{domain}:{port}/{domain}"])
URI = st.tuples(HOSTPART, st.sampled_from(["", "/", "/cb", "/a/b?x=1", "/%7Bx%7D"])).map("".join)
FILE = st.sampled_from(["jwks.json", "private/jwks.json", "./x", "/abs/x.pem", "../up.json", "", "dir with space/é"])
SECRETISH = st.text("abcABC123_-", min_size=1, max_size=12)


@st.composite
def clients(draw):
    res = {}
    for name in draw(st.lists(st.sampled_from(["", "bobcat", "flop", "x y"]), max_size=3, unique=True)):
        c = {"client_id": draw(SECRETISH)}
        if draw(st.booleans()):
            c["issuer"] = draw(URI)
        for k in ("redirect_uris", "post_logout_redirect_uris"):
            if draw(st.booleans()):
                c[k] = draw(st.lists(URI, max_size=3))
        for k in ("post_logout_redirect_uri", "frontchannel_logout_uri", "backchannel_logout_uri"):
            if draw(st.integers(0, 2)) == 0:
                c[k] = draw(st.one_of(URI, st.none()))
        if draw(st.booleans()):
            # not a URI of the client: left alone
            c["client_name"] = "on {domain} and {port}"
            c["behaviour"] = {"scope": ["openid"], "note": "{domain}"}
        if draw(st.integers(0, 2)) == 0:
            c["services"] = {"discovery": {"class": "a.B", "kwargs": {"conf": {"filename": draw(FILE)}}}}
        res[name] = c
    return res


@st.composite
def trees(draw):
    opt = lambda s, p=2: draw(s) if draw(st.integers(0, p)) else None
    c = {}
    c["base_url"] = opt(URI)
    c["domain"] = opt(st.sampled_from(["rp.example.org", "10.1.2.3"]))
    c["port"] = opt(st.sampled_from([8090, 443]))
    c["clients"] = opt(clients(), 4)
    keys = opt(st.fixed_dictionaries({"private_path": FILE, "public_path": FILE, "key_defs": st.just([{"type": "RSA", "key": "", "use": ["sig"]}]), "read_only": st.booleans()}))
    c[draw(st.sampled_from(["rp_keys", "oidc_keys"]))] = keys
    c["hash_seed"] = opt(SECRETISH)
    c["services"] = opt(st.sampled_from([{}, {"discovery": {"class": "x.Y"}}, {"authorization": {"class": "x.Z", "kwargs": {}}}]))
    c["httpc_params"] = opt(st.sampled_from([{"verify": False}, {"verify": True}, {"verify": "ca.pem", "timeout": 3}]))
    web = opt(st.fixed_dictionaries({"port": st.sampled_from([8090, 8443]), "domain": st.just("{domain}"), "server_cert": FILE, "server_key": FILE}))
    c["webserver"] = web
    c = {k: v for k, v in c.items() if v is not None}
    upper = draw(st.lists(st.sampled_from(["clients", "hash_seed", "services", "httpc_params", "webserver", "rp_keys", "oidc_keys"]), max_size=3))
    c = {k.upper() if k in upper else k: v for k, v in c.items()}
    return {"conf": c, "how": draw(st.sampled_from(["dict", "yaml", "json"])), "cls": draw(st.sampled_from(["rp", "rp", "outer", "outer with path"])),
            "domain": draw(st.sampled_from([None, None, "arg.example.net"])), "port": draw(st.sampled_from([None, None, 9999])), "base_path": draw(st.sampled_from([None, None, "/srv/rp", "/srv/rp/"]))}


def resolve(tree, base, domain, port):
    """Independent version: what the tree means."""
    res = {}
    for k, v in tree.items():
        if isinstance(v, dict):
            v = resolve(v, base, domain, port)
        elif k in URIS and v:
            fill = lambda s: s.replace("{domain}", domain).replace("{port}", str(port))
            v = [fill(x) for x in v] if isinstance(v, list) else fill(v)
        elif base and k in FILES:
            if k == "template_dir":
                v = v if v.startswith("/") else os.path.join(base, v)
            elif v and not v.startswith("/"):
                v = os.path.join(base, v)
        res[k] = v
    return res


def pick(conf, name, default=None):
    for k in (name, name.upper()):
        if conf.get(k):
            return conf[k]
    for k in (name, name.upper()):
        if k in conf:
            return conf[k]
    return default


@test(trees(), quick=2500, thorough=30000)
def configuration(c, t):
    from oidcmsg.configure import create_from_config_file
    from oidcrp.configure import Configuration, RPConfiguration
    conf = copy.deepcopy(c["conf"])
    whole = conf
    entity = None
    if c["cls"] == "outer":
        entity = [{"class": RPConfiguration, "attr": "rp"}]
    elif c["cls"] == "outer with path":
        # the surrounding configuration has the web server and the addresses
        whole = {"relying_party": conf, "other": {"filename": "o.json", "issuer": "https://{domain}"}}
        for k in ("webserver", "WEBSERVER", "domain", "port"):
            if k in conf:
                whole[k] = conf.pop(k)
                if k in ("domain", "port"):
                    conf[k] = whole[k]
        entity = [{"class": RPConfiguration, "attr": "rp", "path": ["relying_party"]}]
    kw = {k: c[k] for k in ("domain", "port", "base_path") if c[k] is not None}
    domain = c["domain"] or c["conf"].get("domain") or "127.0.0.1"
    port = c["port"] or c["conf"].get("port") or 80
    want = resolve(conf, c["base_path"], domain, port)
    want_whole = resolve(whole, c["base_path"], domain, port)
    cls = RPConfiguration if c["cls"] == "rp" else Configuration
    if c["how"] == "dict":
        got = cls(copy.deepcopy(whole), entity_conf=entity, **kw)
    else:
        os.makedirs(os.path.join(ROOT, "tmp"), exist_ok=True)
        d = tempfile.mkdtemp(dir=os.path.join(ROOT, "tmp"))
        try:
            fn = os.path.join(d, "conf." + c["how"])
            with open(fn, "w", encoding="utf-8") as f:
                if c["how"] == "yaml":
                    import yaml
                    yaml.safe_dump(whole, f, allow_unicode=True)
                else:
                    json.dump(whole, f)
            got = create_from_config_file(cls, entity_conf=entity, filename=fn, **kw)
        finally:
            shutil.rmtree(d)
    rp = got if c["cls"] == "rp" else got.rp
    check(isinstance(rp, RPConfiguration), "no relying party configuration: {!r}", type(rp))
    eq(rp.base_url, want.get("base_url"), "base_url")
    eq(rp.clients, pick(want, "clients"), "clients")
    eq(rp.services, pick(want, "services"), "services")
    eq(rp.key_conf, pick(want, "rp_keys") or pick(want, "oidc_keys"), "key_conf")
    eq(rp.httpc_params, pick(want, "httpc_params", {"verify": True}), "httpc_params")
    seed = pick(want, "hash_seed")
    if seed:
        eq(rp.hash_seed, seed, "hash_seed")
    else:
        check(isinstance(rp.hash_seed, str) and len(rp.hash_seed) >= 32, "hash_seed: {!r}", rp.hash_seed)
        other = cls(copy.deepcopy(whole), entity_conf=entity, **kw)
        check((other if c["cls"] == "rp" else other.rp).hash_seed != rp.hash_seed, "the generated hash seeds are the same")
    eq((rp.domain, rp.port), (domain, port), "domain and port")
    if c["cls"] != "rp":
        eq(got.web_conf, pick(want_whole, "webserver"), "web_conf")
        eq((got.domain, got.port), (domain, port), "domain and port of the surrounding configuration")
    text = json.dumps(pick(conf, "clients") or {})
    deep = any("{" in json.dumps({k: v for k, v in cl.items() if k in URIS}) for cl in (pick(conf, "clients") or {}).values())
    if deep or (c["base_path"] and (pick(conf, "rp_keys") or pick(conf, "oidc_keys") or "filename" in text)):
        t.nontriv(c["how"], c["cls"], "domain %s" % bool(c["domain"]), "base path %s" % bool(c["base_path"]), "upper" if any(k.isupper() for k in c["conf"]) else "lower")


# -- helpers ----------------------------------------------------------------------------------------------------------------

SEG = st.text("abzAZ09._-~%é", min_size=0, max_size=5)
PATHS = st.lists(SEG, min_size=0, max_size=3).map("/".join)


@test(st.fixed_dictionaries({"url": st.tuples(st.sampled_from(["https://rp.example.com", "http://localhost:8090", "", "x"]), st.sampled_from(["", "/", "/a", "/a/"])).map("".join), "path": st.tuples(st.sampled_from(["", "/", "//"]), PATHS).map("".join)}), quick=500, thorough=5000)
def joining(c, t):
    from oidcrp.util import add_path
    res = add_path(c["url"], c["path"])
    base = c["url"][:-1] if c["url"].endswith("/") else c["url"]
    path = c["path"][1:] if c["path"].startswith("/") else c["path"]
    eq(res, base + "/" + path, "add_path")
    if c["path"].startswith("/") or c["url"].endswith("/"):
        t.nontriv("both" if c["path"].startswith("/") and c["url"].endswith("/") else "one")


NAMES = ["os.path:join", "os.path.join", "json.dumps", "json:JSONDecodeError", "oidcrp.oidc.RP", "oidcrp.oidc:RP", "oidcrp.service.Service", "urllib.parse:quote", "collections.OrderedDict", "oidcrp.oauth2.add_on.pkce.add_support",
         "oidcrp.oauth2.add_on.dpop:dpop_header"]


@test(st.one_of(st.fixed_dictionaries({"known": st.sampled_from(NAMES)}), st.fixed_dictionaries({"name": st.lists(st.text("abz_0", min_size=1, max_size=4), min_size=1, max_size=4).map(".".join), "attr": st.one_of(st.none(), st.text("abz_", min_size=1, max_size=4)),
                                                                                          "extra": st.booleans()})), quick=400, thorough=4000)
def importing(c, t):
    from oidcrp.util import importer, modsplit
    if "known" in c:
        mod, _, attr = c["known"].partition(":") if ":" in c["known"] else c["known"].rpartition(".")
        check(importer(c["known"]) is getattr(importlib.import_module(mod), attr), "{} imported something else", c["known"])
        t.nontriv("known")
        return
    if c["attr"]:
        name = c["name"] + ":" + c["attr"] + (":x" if c["extra"] else "")
        if c["extra"]:
            check(not attempt(modsplit, name).ok, "{} was accepted", name)
        else:
            eq(tuple(modsplit(name)), (c["name"], c["attr"]), "modsplit")
        t.nontriv("colon")
    elif "." not in c["name"]:
        check(not attempt(modsplit, c["name"]).ok, "{} was accepted", c["name"])
    else:
        m, _, a = c["name"].rpartition(".")
        eq(tuple(modsplit(c["name"])), (m, a), "modsplit")
        t.nontriv("dots %d" % c["name"].count("."))


VAL = st.sampled_from([None, "v", "", 0, False, True, [], ["x"], {}, {"a": 1}])


@test(st.fixed_dictionaries({"conf": st.dictionaries(st.sampled_from(["param", "PARAM", "Param", "other"]), VAL, max_size=4), "name": st.sampled_from(["param", "PARAM", "Param"]), "default": VAL, "give": st.booleans()}), quick=500, thorough=5000)
def cases_of_names(c, t):
    from oidcrp.util import lower_or_upper
    conf = {k: v for k, v in c["conf"].items() if v is not None}
    before = copy.deepcopy(conf)
    res = lower_or_upper(conf, c["name"], c["default"]) if c["give"] else lower_or_upper(conf, c["name"])
    eq(conf, before, "the configuration afterwards")
    default = c["default"] if c["give"] else None
    candidates = [conf[k] for k in ("param", "PARAM") if k in conf]
    real = [v for v in candidates if v]
    if real:
        eq(res, real[0], "value")
        t.nontriv("%d values" % len(real))
    elif candidates:
        # neither says anything: what is written or the default
        check(res in candidates or res == default, "got {!r}", res)
    else:
        eq(res, default, "default")


@test(st.fixed_dictionaries({"verify": st.sampled_from([None, True, False, "/ca.pem"]), "verify_ssl": st.sampled_from([None, True, False]), "client_cert": st.sampled_from([None, "c.pem"]), "client_key": st.sampled_from([None, "k.pem"])}), quick=120, thorough=300)
def http_parameters(c, t):
    from oidcrp.util import get_http_params
    conf = {k: v for k, v in c.items() if v is not None}
    res = get_http_params(dict(conf))
    want = {"verify": conf.get("verify", conf.get("verify_ssl", True))}
    if "client_cert" in conf:
        want["cert"] = (conf["client_cert"], conf["client_key"]) if "client_key" in conf else conf["client_cert"]
    eq(res, want, "HTTP parameters")
    if len(conf) > 1:
        t.nontriv("cert" if "cert" in want else "no cert")


TYPES = {"application/json": "json", "application/jrd+json": "json", "application/jwt": "jwt", "application/jose": "jose", "application/x-www-form-urlencoded": "urlencoded", "text/plain": "", "text/html": "", "application/xml": "", "image/png": ""}


@test(st.fixed_dictionaries({"type": st.one_of(st.none(), st.sampled_from(sorted(TYPES))), "params": st.sampled_from(["", "; charset=utf-8", ";charset=UTF-8", " ; profile=\"application/jwt\""]), "case": st.sampled_from(["as is", "upper", "title"]),
                             "body": st.sampled_from(['{"a": 1}', "a=b&c=d", "", "[]", "eyJ.e.s"]), "expect": st.sampled_from(["json", "jwt", "urlencoded", "txt", ""])}), quick=800, thorough=6000)
def media_types(c, t):
    from oidcrp.util import get_deserialization_method, verify_header
    from world import response
    ctype = None
    if c["type"]:
        ctype = {"as is": c["type"], "upper": c["type"].upper(), "title": c["type"].title()}[c["case"]] + c["params"]
    r = response(200, c["body"], ctype)
    if c["type"]:
        want = TYPES[c["type"]]
    else:
        try:
            json.loads(c["body"])
            want = "json"
        except ValueError:
            want = "urlencoded"
    eq(get_deserialization_method(r), want, "how to read a body of type %r" % ctype)
    out = attempt(verify_header, r, c["expect"])
    kind = {"json": "json", "jwt": "jwt", "urlencoded": "urlencoded"}.get(TYPES.get(c["type"]))
    text = c["type"] in ("text/plain", "text/html")
    if ctype is None:
        eq(out.value, c["expect"] or "txt", "expected type without content type")
    elif c["expect"] == "":
        eq(out.value, kind or "txt", "detected type of %r" % ctype)
    elif c["expect"] == kind or (c["expect"] == "urlencoded" and c["type"] == "text/plain") or (c["expect"] == "txt" and text):
        eq(out.value, c["expect"], "type of %r" % ctype)
    elif c["expect"] == "json" and kind == "jwt":
        eq(out.value, "jwt", "type of %r" % ctype)
    else:
        check(not out.ok, "{!r} was accepted as {}: {}", ctype, c["expect"], out)
    t.nontriv(c["case"], "refused" if not out.ok else "ok")


RTS = ["code", "id_token", "id_token token", "code id_token", "token"]


@test(st.fixed_dictionaries({"asked": st.sampled_from([None, None, None, "https://rp/x"]), "uris": st.one_of(st.none(), st.none(), st.lists(st.sampled_from(["https://rp/1", "https://rp/2"]), min_size=0, max_size=2)),
                             "callback": st.lists(st.sampled_from(["code", "implicit", "form_post"]), max_size=3, unique=True), "conf_rt": st.lists(st.sampled_from(RTS), max_size=2), "rt": st.one_of(st.none(), st.sampled_from(RTS)),
                             "rt_how": st.sampled_from(["arg", "request", "request list", "request message"]), "mode": st.sampled_from([None, None, "form_post", "query", "fragment"])}), quick=1500, thorough=15000)
def redirect_addresses(c, t):
    from oidcrp.oauth2.utils import pick_redirect_uri
    from oidcrp.service_context import ServiceContext
    from oidcmsg.oidc import AuthorizationRequest
    context = ServiceContext(config={"client_id": "x", "issuer": "https://op"})
    context.behaviour = {"response_types": list(c["conf_rt"])} if c["conf_rt"] else {}
    context.redirect_uris = list(c["uris"]) if c["uris"] is not None else None
    context.callback = {k: "https://rp/cb/" + k for k in c["callback"]}
    req, kw = {}, {}
    if c["asked"]:
        req["redirect_uri"] = c["asked"]
    if c["mode"]:
        req["response_mode"] = c["mode"]
    if c["rt"]:
        if c["rt_how"] == "arg":
            kw["response_type"] = c["rt"]
        elif c["rt_how"] == "request":
            req["response_type"] = c["rt"]
        else:
            req["response_type"] = c["rt"].split(" ")
    if c["rt_how"] == "request message":
        req = AuthorizationRequest(**req)
    before = dict(req)
    out = attempt(pick_redirect_uri, context, request_args=req, **kw)
    eq(dict(req), before, "the request afterwards")
    if c["asked"]:
        want = c["asked"]
    elif c["uris"]:
        want = c["uris"][0]
    else:
        rt = c["rt"] or (c["conf_rt"] or [None])[0]
        kind = "form_post" if c["mode"] == "form_post" else "code" if rt == "code" else "implicit"
        want = context.callback.get(kind)
        t.nontriv(kind if want else "none")
    if want is None:
        check(not out.ok, "an address from nowhere: {}", out)
    else:
        check(out.ok, "no address: {}", out)
        eq(out.value, want, "redirect URI")


PNAME = st.sampled_from(["state", "scope", "client_id", "x", "a b", "redirect_uri", "é"])
PVAL = st.text("abc &=+%é#?/;", min_size=1, max_size=8)


@test(st.fixed_dictionaries({"params": st.dictionaries(PNAME, PVAL, max_size=4), "query": st.lists(st.tuples(st.sampled_from(["q", "tenant", "x y"]), st.text("ab &=é", max_size=4)), max_size=2, unique_by=lambda p: p[0]), "path": st.sampled_from(["", "/", "/a/b"]),
                             "method": st.sampled_from(["GET", "DELETE", "POST", "PUT"]), "fragment": st.sampled_from(["", "", "frag"])}), quick=800, thorough=8000)
def http_messages(c, t):
    from oidcmsg.message import Message
    from oidcrp.util import get_http_body, get_http_url
    msg = Message(**c["params"])
    q = "&".join("%s=%s" % (quote(k), quote(v)) for k, v in c["query"])
    url = "https://op.example.org" + c["path"] + ("?" + q if q else "") + ("#" + c["fragment"] if c["fragment"] else "")
    got = get_http_url(url, msg, method=c["method"])
    eq(msg.to_dict(), c["params"], "the message afterwards")
    u, o = urlsplit(got), urlsplit(url)
    eq((u.scheme, u.netloc, u.path, u.fragment), (o.scheme, o.netloc, o.path, o.fragment), "parts of the URL")
    if c["method"] in ("GET", "DELETE"):
        eq(sorted(parse_qsl(u.query, keep_blank_values=True)), sorted(list(c["params"].items()) + [tuple(x) for x in c["query"]]), "query")
        if c["query"] and c["params"]:
            t.nontriv("merged")
    else:
        eq(got, url, "URL of a %s request" % c["method"])
    eq(sorted(parse_qsl(get_http_body(msg), keep_blank_values=True)), sorted(c["params"].items()), "form")
    eq(json.loads(get_http_body(msg, "application/json")), c["params"], "JSON body")
    check(get_http_body("token", "application/jose") == "token", "JOSE body was changed")
    check(not attempt(get_http_body, msg, "text/plain").ok, "an unknown content type was accepted")
    if len(c["params"]) > 1:
        t.nontriv("parameters")


LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR"]


@st.composite
def log_calls(draw):
    def conf():
        c = {"version": 1, "disable_existing_loggers": draw(st.booleans()), "formatters": {"default": {"format": "%(message)s"}}, "handlers": {"default": {"class": "logging.NullHandler"}}}
        if draw(st.integers(0, 4)):
            c["root"] = {"handlers": ["default"]}
            if draw(st.integers(0, 3)):
                c["root"]["level"] = draw(st.sampled_from(LEVELS))
        if draw(st.booleans()):
            c["loggers"] = {"c25.x": {"level": draw(st.sampled_from(LEVELS))}}
        return c
    return [{"how": draw(st.sampled_from(["default", "default", "dict", "file", "cwd file", "no file", "configuration"])), "conf": conf(), "debug": draw(st.booleans())} for _ in range(draw(st.integers(1, 4)))]


@test(log_calls(), quick=400, thorough=4000)
def logging_setup(calls, t):
    """Every call sets up what its own source says, whatever was set up before; the sources stay as they are"""
    import logging
    L = importlib.import_module("oidcrp.logging")
    from oidcrp.configure import Configuration
    root = logging.getLogger()
    kept = (root.level, list(root.handlers), {n: (x.disabled, x.level) for n, x in logging.root.manager.loggerDict.items() if isinstance(x, logging.Logger)}, copy.deepcopy(L.LOGGING_DEFAULT))
    where, cwd = tempfile.mkdtemp(), os.getcwd()
    os.chdir(where)
    try:
        for i, call in enumerate(calls):
            how, conf, debug = call["how"], copy.deepcopy(call["conf"]), call["debug"]
            root.setLevel(logging.CRITICAL)
            logging.getLogger("c25.x").setLevel(logging.CRITICAL)
            kw = {"debug": debug} if debug or i % 2 else {}
            want = call["conf"]
            given = conf
            if how == "default":
                out = attempt(L.configure_logging, **kw)
                want = kept[3]
            elif how == "dict":
                out = attempt(L.configure_logging, config=conf, **kw)
            elif how == "configuration":
                debug = False
                given = {"logging": conf, "webserver": {}}
                out = attempt(Configuration, given)
                given = given["logging"]
            elif how == "no file":
                out = attempt(L.configure_logging, filename=os.path.join(where, "none.yaml"), **kw)
                want = kept[3]
            else:
                name = "logging.yaml" if how == "cwd file" else "other.yaml"
                with open(name, "w") as fp:
                    json.dump(conf, fp)
                out = attempt(L.configure_logging, **kw) if how == "cwd file" else attempt(L.configure_logging, filename=name, **kw)
                os.remove(name)
            what = "call {} of {}".format(i, calls)
            check(out.ok, "logging can't be set up: {!r} ({})", out, what)
            if how == "configuration":
                eq(out.value.logger.name, "oidcrp.configure", "logger of the configuration")
            else:
                check(out.value is root, "logger {!r} ({})", out.value, what)
            eq(given, call["conf"], "the caller's dictionary")
            eq(L.LOGGING_DEFAULT, kept[3], "the default")
            level = "DEBUG" if debug else want.get("root", {}).get("level", "CRITICAL")
            eq(logging.getLevelName(root.level), level, "level after " + what)
            eq(logging.getLevelName(logging.getLogger("c25.x").level), want.get("loggers", {}).get("c25.x", {}).get("level", "CRITICAL"), "level of a logger after " + what)
            if "root" in want:
                eq([type(h).__name__ for h in root.handlers], [want["handlers"]["default"]["class"].rsplit(".", 1)[1]], "handlers after " + what)
            t.label(how, "debug" if debug else "")
        if len(calls) > 1:
            t.nontriv(*[x["how"] for x in calls])
    finally:
        os.chdir(cwd)
        shutil.rmtree(where)
        root.setLevel(kept[0])
        root.handlers[:] = kept[1]
        for n, (d, level) in kept[2].items():
            logging.getLogger(n).disabled = d
            logging.getLogger(n).setLevel(level)
        L.LOGGING_DEFAULT.clear()
        L.LOGGING_DEFAULT.update(kept[3])


@functools.lru_cache(None)
def certificates():
    """(name -> (certificate, key)) in PEM, one of them issued by the other one"""
    import datetime
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.x509.oid import NameOID
    res, start = {}, datetime.datetime(2020, 1, 1)
    keys = {n: ec.generate_private_key(ec.SECP256R1()) for n in ("server", "other", "ca", "user", "stranger")}
    for i, (n, k) in enumerate(keys.items()):
        by = "ca" if n == "user" else n
        name = lambda x: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, x)])  # noqa
        c = x509.CertificateBuilder().subject_name(name(n)).issuer_name(name(by)).public_key(k.public_key()).serial_number(i + 1).not_valid_before(start).not_valid_after(start + datetime.timedelta(36500))
        c = c.add_extension(x509.BasicConstraints(ca=n == "ca", path_length=None), critical=True).sign(keys[by], hashes.SHA256())
        res[n] = (c.public_bytes(serialization.Encoding.PEM), k.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()))
    return res


def handshake(server, client):
    """The two sides talk to each other; returns the server's certificate, or None if they don't agree"""
    import ssl
    a, b, c, d = [ssl.MemoryBIO() for _ in range(4)]
    s = server.wrap_bio(a, b, server_side=True)
    cl = client.wrap_bio(c, d)
    done = {}
    try:
        for _ in range(10):
            for side in (cl, s):
                try:
                    if side not in done:
                        side.do_handshake()
                        done[side] = True
                    elif side is cl:
                        cl.read(1)
                except ssl.SSLWantReadError:
                    pass
            c.write(b.read())
            a.write(d.read())
        return cl.getpeercert(True) if len(done) == 2 else None
    except ssl.SSLError:
        return None


@test(st.fixed_dictionaries({"cert": st.sampled_from(["server.crt", "certs/server.crt", "ABS", "other.crt", None, "missing.crt"]), "key": st.sampled_from(["server.key", "certs/server.key", "ABS", "other.key", None, "missing.key"]),
                             "verify": st.sampled_from([None, None, "", "optional", "required", "required", "always"]), "ca": st.sampled_from([True, True, False]), "upper": st.booleans(), "user": st.sampled_from([None, "user", "stranger"])}), quick=300, thorough=2000)
def server_tls(c, t):
    """The TLS settings of the application's server: the configured certificate is shown and users' certificates are demanded as configured"""
    import ssl
    import warnings
    from oidcrp.util import create_context
    pems = certificates()
    where = tempfile.mkdtemp()
    try:
        os.mkdir(where + "/certs")
        os.mkdir(where + "/abs")
        for f, (n, i) in {"server.crt": ("server", 0), "server.key": ("server", 1), "certs/server.crt": ("other", 0), "certs/server.key": ("other", 1), "abs/c": ("server", 0), "abs/k": ("server", 1), "other.crt": ("other", 0), "other.key": ("other", 1),
                          "ca.crt": ("ca", 0), "user.crt": ("user", 0), "user.key": ("user", 1), "stranger.crt": ("stranger", 0), "stranger.key": ("stranger", 1)}.items():
            with open(os.path.join(where, f), "wb") as fp:
                fp.write(pems[n][i])
        conf = {"server_cert": where + "/abs/c" if c["cert"] == "ABS" else c["cert"], "server_key": where + "/abs/k" if c["key"] == "ABS" else c["key"], "verify_user": c["verify"], "ca_bundle": where + "/ca.crt" if c["ca"] else None}
        conf = {k.upper() if c["upper"] else k: v for k, v in conf.items() if v is not None}
        given = copy.deepcopy(conf)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                ctx = create_context(where, conf)
            except SystemExit:
                ctx = "exit"
        eq(conf, given, "the configuration")
        if not c["cert"] or not c["key"]:
            eq(ctx, None, "context without certificate or key")
            return
        who = lambda x: "server" if x in ("server.crt", "server.key", "ABS") else "other" if "missing" not in x else None  # noqa
        if c["verify"] == "always" or not who(c["cert"]) or who(c["cert"]) != who(c["key"]):
            eq(ctx, "exit", "context with what can't be used: %r" % conf)
            t.label("refused")
            return
        check(isinstance(ctx, ssl.SSLContext), "context {!r} for {!r}", ctx, conf)
        client = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        client.check_hostname, client.verify_mode = False, ssl.CERT_NONE
        if c["user"]:
            client.load_cert_chain(where + "/%s.crt" % c["user"], where + "/%s.key" % c["user"])
        got = handshake(ctx, client)
        good = not c["verify"] or (c["user"] == "user" and c["ca"]) or (c["verify"] == "optional" and not c["user"])
        eq(got, ssl.PEM_cert_to_DER_cert(pems[who(c["cert"])][0].decode()) if good else None, "certificate shown to %s by a server with %r" % (c["user"] or "anybody", conf))
        t.nontriv(str(c["verify"]), str(c["user"]), "ca" if c["ca"] else "no ca", "agreed" if good else "refused")
    finally:
        shutil.rmtree(where)


# -- addresses of the RP's own files ------------------------------------------------------------------------------------------------------------------

HOSTS = ["https://rp.example.com", "https://elsewhere.example.org/?u=https://rp.example.com/", "https://rp.example.com/", "https://rp.example.com/app", "https://rp.example.com/app/", "https://rp.example.co"]
TAIL = st.text("ab/.0", min_size=0, max_size=6)


@test(st.fixed_dictionaries({"base": st.sampled_from(HOSTS), "names": st.lists(st.tuples(st.sampled_from(HOSTS), TAIL), min_size=1, max_size=4)}), quick=800, thorough=8000)
def web_names(c, t):
    """each address below the base URL has a file name of its own; others have none"""
    from oidcrp.service_context import ServiceContext
    context = ServiceContext(config={"client_id": "x", "issuer": "https://op"}, base_url=c["base"])
    root = c["base"].rstrip("/") + "/"
    for h, tail in c["names"]:
        for url in (h + tail, h.rstrip("/") + "/" + tail.lstrip("/")):
            out = attempt(context.filename_from_webname, url)
            if url.startswith(root) and not url[len(root):].startswith("/"):
                check(out.ok, "{} below {}: {!r}", url, c["base"], out)
                eq(out.value, url[len(root):], "file name of {} below {}".format(url, c["base"]))
                t.nontriv("name")
            elif not url.startswith(root.rstrip("/")) or url[len(root) - 1:len(root)] not in ("/", ""):
                check(not out.ok, "{} isn't below {} but has the file name {!r}", url, c["base"], out)
                t.nontriv("refused")


@test(st.lists(st.fixed_dictionaries({"issuer": st.sampled_from(["https://op", "https://op/", "https://op/1", "https://op/2", "https://OP"]), "info": st.booleans(), "base": st.sampled_from(HOSTS[:1] + HOSTS[2:5]), "path": st.sampled_from(["req", "/req", "a/b", "/a/b"])}), min_size=1, max_size=5), quick=500, thorough=5000)
def request_addresses(cs, t):
    """an address for request objects is unique for RP and provider, and always the same"""
    from oidcrp.service_context import ServiceContext
    seen = {}
    for c in cs:
        context = ServiceContext(config={"client_id": "x", "issuer": c["issuer"]}, base_url=c["base"])
        if c["info"]:
            context.issuer = "https://elsewhere"
            context.provider_info = {"issuer": c["issuer"]}
        out = attempt(context.generate_request_uris, c["path"])
        check(out.ok and isinstance(out.value, list) and len(out.value) == 1, "addresses: {!r}", out)
        url = out.value[0]
        eq(context.redirect_uris, [url], "recorded")
        check(url.startswith(c["base"] + "/" + c["path"].lstrip("/") + "/"), "{} isn't below {} and {}", url, c["base"], c["path"])
        last = url.rsplit("/", 1)[1]
        k = (c["issuer"], c["base"])
        eq(seen.setdefault(k, last), last, "address for %r" % (k,))
        check(len(set(seen.values())) == len(seen), "two of {!r} share an address: {!r}", list(seen), seen)
    t.nontriv(len(seen) > 1)


# -- configuration files -------------------------------------------------------------------------------------------------------------------------------

LEAF = st.one_of(st.none(), st.booleans(), st.integers(-5, 10 ** 10), st.text("aé:'\"#{}[]\n0 -ñ☃", max_size=6))
TREE = st.recursive(LEAF, lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.text("abé_1 ", min_size=1, max_size=4), s, max_size=3)), max_leaves=8)


@test(st.dictionaries(st.sampled_from(["port", "domain", "base_url", "clients", "Logging", "KEYS"]), TREE, max_size=5), quick=300, thorough=3000)
def files(conf, t):
    """whatever loads a file gives what is in the file"""
    import io
    import tempfile
    import yaml
    from oidcrp import util
    with tempfile.TemporaryDirectory(dir=".") as d:
        for kind, text in (("json", json.dumps(conf)), ("json", json.dumps(conf, ensure_ascii=False)), ("yaml", yaml.safe_dump(conf, allow_unicode=True)), ("yaml", json.dumps(conf))):
            fn = os.path.join(d, "conf." + kind)
            with open(fn, "w", encoding="utf-8") as f:
                f.write(text)
            for f in (util.load_json,) if kind == "json" else (util.load_yaml_config, util.load_configuration):
                out = attempt(f, fn)
                check(out.ok, "{} of {!r}: {!r}", f.__name__, text, out)
                eq(out.value, conf, "%s of %r" % (f.__name__, text))
            if kind == "yaml":
                out = attempt(util.yaml_to_py_stream, fn)
                check(out.ok and isinstance(out.value, io.StringIO), "{!r}: {!r}", text, out)
                got = {}
                source = out.value.read()
                ran = attempt(exec, source, got)
                check(ran.ok, "no Python: {!r}: {!r}", source, ran)
                got.pop("__builtins__", None)
                eq(got, conf, "as Python: %r" % source)
        check(not attempt(util.load_configuration, os.path.join(d, "conf.json")).ok, "a file of an unknown type was loaded")
    t.nontriv(bool(conf))
