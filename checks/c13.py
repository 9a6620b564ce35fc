"""C13: Discovery binds a client to exactly the issuer it asked for."""
import copy
import json
import os
import tempfile

from hypothesis import strategies as st

import world as W
from op import OP, World, client_conf, ctx, handler, response, services
from vt import attempt, check, eq, test
from world import Unreachable

RULE = ("Case = issuer asked for, issuer stated, mismatch setting, metadata document with dropped, mistyped and relocated fields, HTTP outcome, kind of client and way of discovery (RPHandler, single service, discovery URL, "
        "static provider information), possibly a second document. Oracle: independent acceptance predicate; then endpoints and keys of every service are exactly the published ones, or nothing of the document is "
        "left and a later good document works. Non-trivial: the document differs from a plain correct one.")
ASSUMPTIONS = ["a document is malformed when a parameter required by the standard is missing or a defined parameter has the wrong JSON type"]

ENDPOINTS = ["authorization_endpoint", "token_endpoint", "userinfo_endpoint", "registration_endpoint", "end_session_endpoint"]
USES = {"authorization": "authorization_endpoint", "accesstoken": "token_endpoint", "refresh_token": "token_endpoint", "userinfo": "userinfo_endpoint", "registration": "registration_endpoint",
        "end_session": "end_session_endpoint"}
ISS = ["https://op0.example.org", "https://op0.example.org/", "https://op0.example.org:8443/t/1", "https://op0.example.org/tenant/", "http://op0.example.org/dev", "https://op0.example.org/ü%20x", "https://op0.example.org/t//"]
MUT = {"same": lambda s: s, "+slash": lambda s: s + "/", "-slash": lambda s: s[:-1] if s.endswith("/") else s, "+slashes": lambda s: s + "//", "upper": lambda s: s.upper(),
       "host case": lambda s: s.replace("op0", "OP0"), "other": lambda s: "https://evil.example.org", "suffix": lambda s: s + ".evil.org", "prefix": lambda s: s[:-2], "path": lambda s: s.rstrip("/") + "/x",
       "http": lambda s: s.replace("https://", "http://"), "https": lambda s: s.replace("http://", "https://"), "space": lambda s: s + " ", "port": lambda s: s.replace("example.org", "example.org:443", 1),
       "empty": lambda s: "", "user": lambda s: s.replace("://", "://a@"), "fragment": lambda s: s + "#", "query": lambda s: s + "?"}
REQUIRED = {"oidc": ["issuer", "authorization_endpoint", "jwks_uri", "response_types_supported", "subject_types_supported", "id_token_signing_alg_values_supported"],
            "oauth2": ["issuer", "response_types_supported", "grant_types_supported"]}
BAD = [17, {"a": 1}, ["x", "y"], None, True]


@st.composite
def docs(draw):
    return {"stated": draw(st.one_of(st.sampled_from(["same", "same", "same", "+slash", "-slash"]), st.sampled_from(sorted(MUT)))),
            "drop": draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(REQUIRED["oidc"] + ENDPOINTS[1:]))),
            "bad": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(["issuer", "authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint"]), st.sampled_from(BAD)))),
            "move": draw(st.lists(st.tuples(st.sampled_from(ENDPOINTS), st.sampled_from(["", ":444", "2", "q"])), max_size=4)),
            "extra": draw(st.booleans()), "inline": draw(st.integers(0, 3)) == 0, "keys": draw(st.sampled_from(["rsa", "ec", "both"])),
            "http": draw(st.one_of(st.just("ok"), st.just("ok"), st.sampled_from(["404", "400", "500", "503", "302", "301", "307", "204", "garbage", "list", "string", "empty", "truncated", "down", "error", "plain", "jrd", "notype"]))),
            "match": draw(st.sampled_from([True, True, True, False]))}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["oidc", "oidc", "oauth2"]))
    return {"kind": kind, "via": draw(st.sampled_from(["handler", "handler", "service", "discovery_url", "static"])), "iss": draw(st.sampled_from(ISS)),
            "allow": draw(st.sampled_from([None, None, {}, {"issuer_mismatch": False}, {"issuer_mismatch": True}, {"missing_kid": True}])), "preload": draw(st.booleans()),
            "docs": draw(st.lists(docs(), min_size=1, max_size=3)), "keyspec": draw(st.sampled_from(["url", "file"]))}


def strip(s):
    return s[:-1] if s.endswith("/") else s


def acceptable(doc, asked, stated, allow, kind):
    """(must accept, must refuse)"""
    if doc["http"] not in ("ok", "plain", "jrd", "notype"):
        return False
    if doc["drop"] in REQUIRED[kind] or (doc["drop"] == "token_endpoint" and kind == "oidc"):
        return False
    if doc["bad"]:
        name, val = doc["bad"]
        if kind == "oauth2" and name == "userinfo_endpoint":
            return None
        return None if val is None and name not in REQUIRED[kind] else False
    if not doc["match"] and kind == "oidc":
        return False
    if not stated:
        return False
    if strip(stated) != strip(asked) and not (allow or {}).get("issuer_mismatch"):
        return False
    if kind == "oidc":
        if not stated.lower().startswith("https://") and not asked.startswith("http://"):
            return False
        if "?" in stated or "#" in stated:
            return None
    return True


@test(cases(), quick=5000, thorough=60000)
def discovery(case, t):
    with World() as w:
        run(case, t, w)


def run(case, t, w):
    kind, asked, allow = case["kind"], case["iss"], case["allow"]
    from urllib.parse import urlsplit
    op = OP(w, 0, issuer=asked)
    hosts = ["a.example.net", "a.example.net:444", "a2.example.net"]
    for h in hosts:
        w.serve(h, op.handle)
    cur = {}
    for doc in case["docs"][1:]:       # key rotation is another matter
        doc["keys"] = case["docs"][0]["keys"]
        if doc["drop"] not in REQUIRED[kind]:          # and so are endpoints that disappear
            doc["drop"] = None
    wk = strip(asked) + "/.well-known/openid-configuration"

    def build(doc):
        d = {"issuer": MUT[doc["stated"]](asked), "jwks_uri": op.base + "/jwks.json", "response_types_supported": ["code", "id_token"], "subject_types_supported": ["public"],
             "id_token_signing_alg_values_supported": ["RS256", "ES256"] if doc["match"] else ["RS256", "none"], "grant_types_supported": ["authorization_code"], "scopes_supported": ["openid"]}
        for n in ENDPOINTS:
            d[n] = op.ep(n)
        for n, how in doc["move"]:
            d[n] = {"": "https://a.example.net", ":444": "https://a.example.net:444", "2": "https://a2.example.net", "q": "https://a.example.net"}[how] + urlsplit(op.ep(n)).path + ("?x=%20y" if how == "q" else "")
        if doc["extra"]:
            d.update({"foo_endpoint": "https://a.example.net/foo", "mtls_token_endpoint": "https://a.example.net/mtls/token", "x_userinfo_endpoint": "https://a.example.net/x", "token_endpoint_auth_methods_supported": ["client_secret_basic"],
                      "x_feature": [1, {"a": "b"}], "mtls_endpoint_aliases": {"token_endpoint": "https://a.example.net/alias/token"}, "the_registration_endpoint": "https://a.example.net/r"})
        if doc["drop"]:
            d.pop(doc["drop"], None)
        if doc["bad"]:
            d[doc["bad"][0]] = doc["bad"][1]
        if doc.get("inline") and "jwks_uri" in d:
            d["jwks"] = W.public_jwks("op1_rsa", "op1_ec256")      # not something the standard defines, keys are at jwks_uri
        return d

    def meta(req):
        doc = cur["doc"]
        cur["asked"] = cur.get("asked", 0) + 1
        if req.url != W_url(wk):
            return response(404, "no", "text/plain")
        body = json.dumps(build(doc))
        h = doc["http"]
        if h == "ok":
            return response(200, body)
        if h in ("404", "400", "500", "503"):
            return response(int(h), body)
        if h in ("301", "302", "307"):
            return response(int(h), body, headers={"location": "https://evil.example.org/.well-known/openid-configuration"})
        if h == "204":
            return response(204, "")
        if h == "down":
            return Unreachable("down")
        if h == "error":
            return response(200, {"error": "server_error"})
        if h == "plain":
            return response(200, body, "text/plain")
        if h == "jrd":
            return response(200, body, "application/jrd+json; charset=utf-8")
        if h == "notype":
            return response(200, body, None)
        return response(200, {"garbage": "<html>not</html>", "list": "[" + body + "]", "string": json.dumps(body), "empty": "", "truncated": body[:-7]}[h])

    def jwks(req):
        k = {"rsa": ["op0_rsa"], "ec": ["op0_ec256"], "both": ["op0_rsa", "op0_ec256"]}[cur["doc"]["keys"]]
        return response(200, W.public_jwks(*k))
    op.meta_hook, op.jwks_hook = meta, jwks

    srv = services() if kind == "oidc" else {"discovery": {"class": "oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery"}, "authorization": {"class": "oidcrp.oauth2.authorization.Authorization"},
                                            "access_token": {"class": "oidcrp.oauth2.access_token.AccessToken"}, "refresh": {"class": "oidcrp.oauth2.refresh_access_token.RefreshAccessToken"}}
    if case["preload"] and kind == "oidc":
        srv["discovery"]["kwargs"] = {"conf": {"pre_load_keys": True}}
    conf = client_conf(op)
    if allow is not None:
        conf["allow"] = dict(allow)
    if kind == "oidc":
        conf["client_preferences"] = {"id_token_signed_response_alg": ["ES256"]}
    via = case["via"]
    name = asked
    if via == "discovery_url":
        name = "my-provider"
        conf["issuer"] = name
        conf["srv_discovery_url"] = asked
    if via == "static":
        return static(case, t, w, op, conf, srv, build)
    kw = {}
    if kind == "oauth2":
        from oidcrp.oauth2 import Client
        kw["client_cls"] = Client
    rh = handler({name: conf}, services=srv, **kw)
    client = None
    adopted = None
    for n, doc in enumerate(case["docs"]):
        cur["doc"] = doc
        mark = len(w.log)
        d = build(doc)
        stated = d.get("issuer")
        want = acceptable(doc, asked, stated, allow, kind) if isinstance(stated, str) else False
        before = snapshot(client) if client is not None else None
        if via == "service":
            client = client or rh.init_client(name)
            before = snapshot(client)
            prev = ctx(client).issuer
            if strip(prev) != strip(asked):      # a mismatch was allowed, now that's the one asked for
                break
            out = attempt(client.do_request, "provider_info")
            ok = out.ok and "error" not in out.value
        else:
            out = attempt(rh.client_setup, name)
            ok = out.ok
            if ok and client is None:
                client = out.value
        asks = [r for r in w.since(mark) if "well-known" in r.path]
        if adopted is not None and via != "service":
            eq(asks, [], "discovery requests for a known provider")
            break
        eq([(r.method, r.url) for r in asks], [("GET", W_url(wk))], "discovery requests")
        check(want is None or ok == want, "document {} for {!r} (allow {}): {!r}", d, asked, allow, out)
        t.label("accepted" if ok else "refused", "http:" + doc["http"], "stated:" + doc["stated"], "via:" + via, "kind:" + kind, "n:%d" % n)
        if ok:
            adopted = d
            verify_adopted(t, w, client, d, op, doc, kind, asked)
        elif via == "service":
            eq(snapshot(client), before, "provider information, endpoints and keys after a refusal")
        else:
            eq(list(rh.issuer2rp), [], "clients after a refusal")
            eq([r.url for r in w.since(mark) if "well-known" not in r.path], [], "other requests during a refused set up")
        if doc["stated"] != "same" or doc["drop"] or doc["bad"] or doc["move"] or doc["http"] != "ok" or not doc["match"] or n:
            t.nontriv()
    if adopted is not None and kind == "oidc" and strip(adopted["issuer"]) == strip(asked) and via != "service" and adopted.get("userinfo_endpoint") and adopted.get("token_endpoint"):
        # a login against exactly those endpoints
        op.issuer = ctx(client).issuer
        op.alg = "ES256" if cur["doc"]["keys"] != "rsa" else "RS256"
        conf_alg = attempt(lambda: rh.begin(name))
        check(conf_alg.ok, "begin: {!r}", conf_alg)
        eq(conf_alg.value["url"].split("?")[0], adopted["authorization_endpoint"].split("?")[0], "authorization endpoint")
        mark = len(w.log)
        lg, resp = op.authorize(conf_alg.value["url"])
        out = attempt(rh.finalize, ctx(client).issuer, resp)
        check(out.ok and "error" not in out.value, "login: {!r}", out)
        urls = [r.url for r in w.since(mark) if r.path in ("/token", "/userinfo")]
        eq(urls, [W_url(adopted["token_endpoint"]), W_url(adopted["userinfo_endpoint"])], "URLs used")
        t.label("login")


def W_url(u):
    import requests
    return requests.Request("GET", u).prepare().url


def snapshot(client):
    c = ctx(client)
    owners = {o: sorted(k.kid or k.kty for k in c.keyjar[o].all_keys()) for o in c.keyjar.owners()}
    pi = c.provider_info
    return {"issuer": c.issuer, "info": json.loads(pi.to_json()) if hasattr(pi, "to_json") else dict(pi or {}), "endpoints": {n: s.endpoint for n, s in client.client_get("services").items()}, "keys": {o: v for o, v in owners.items() if v and o not in ("", c.base_url)}}


def verify_adopted(t, w, client, d, op, doc, kind, asked):
    c = ctx(client)
    for sname, ep in USES.items():
        s = client.client_get("service", sname)
        if s is None:
            continue
        got = attempt(s.get_endpoint)
        if d.get(ep):
            check(got.ok and got.value == d[ep], "endpoint of {}: {!r}, published {!r}", sname, got, d[ep])
        else:
            check(not got.ok or not got.value, "endpoint of {}: {!r}, none published", sname, got)
    stated = d["issuer"]
    if strip(stated) == strip(asked):
        eq(c.issuer, stated, "issuer of the client")
    if kind == "oidc" or d.get("jwks_uri"):
        check(c.issuer in c.keyjar, "no keys for {!r}", c.issuer)
        kids = set(k.kid for k in c.keyjar.get_issuer_keys(c.issuer))
        exp = {"rsa": ["op0_rsa"], "ec": ["op0_ec256"], "both": ["op0_rsa", "op0_ec256"]}[doc["keys"]]
        eq(kids, set(W.key(k).kid for k in exp), "keys of the provider")
        fetched = [r.url for r in w.log if r.path == "/jwks.json"]
        check(fetched and set(fetched) == {d["jwks_uri"]}, "keys fetched from {}", fetched)
    for k, v in d.items():
        pi = c.provider_info
        eq(json.loads(json.dumps(pi[k])), v, "adopted value of " + k) if v is not None else None


def static(case, t, w, op, conf, srv, build):
    """Provider information from the configuration."""
    doc = dict(case["docs"][0], drop=None, bad=None, stated="same", match=True)
    asked = case["iss"]
    d = build(doc)
    for n in case["docs"][0]["drop"] or "", :
        if n in ENDPOINTS[1:]:
            d.pop(n, None)
    tmp = None
    cur_keys = {"rsa": ["op0_rsa"], "ec": ["op0_ec256"], "both": ["op0_rsa", "op0_ec256"]}[doc["keys"]]
    op.jwks_hook = lambda req: response(200, W.public_jwks(*cur_keys))
    try:
        if case["keyspec"] == "url":
            d["keys"] = {"url": {asked: op.base + "/jwks.json"}}
        else:
            fd, tmp = tempfile.mkstemp(prefix="vt-c13-", suffix=".json")
            with os.fdopen(fd, "w") as f:
                json.dump(W.public_jwks(*cur_keys), f)
            d["keys"] = {"file": {"jwks": tmp}}
        conf["provider_info"] = copy.deepcopy(d)
        kw = {}
        if case["kind"] == "oauth2":
            from oidcrp.oauth2 import Client
            kw["client_cls"] = Client
        rh = handler({asked: conf}, services=srv, **kw)
        client = rh.client_setup(asked)
        c = ctx(client)
        eq([r.url for r in w.log if "well-known" in r.path], [], "discovery requests")
        for sname, ep in USES.items():
            s = client.client_get("service", sname)
            if s is None:
                continue
            got = attempt(s.get_endpoint)
            if d.get(ep):
                check(got.ok and got.value == d[ep], "endpoint of {}: {!r}, configured {!r}", sname, got, d[ep])
            else:
                check(not got.ok or not got.value, "endpoint of {}: {!r}, none configured", sname, got)
        kids = set(k.kid for k in c.keyjar.get_issuer_keys(asked))
        eq(kids, set(W.key(k).kid for k in cur_keys), "keys of the provider")
        eq(conf["provider_info"], d, "configuration")
        t.nontriv("via:static", "keyspec:" + case["keyspec"])
    finally:
        if tmp:
            os.unlink(tmp)
