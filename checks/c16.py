"""C16: WebFinger asks the right host and adopts only an acceptable issuer."""
import json
from urllib.parse import parse_qsl, urlsplit

from hypothesis import strategies as st

from op import OP, World, client_conf, ctx, handler, query_of, response, services, single
from vt import attempt, check, eq, test

RULE = ("identifier: built from generated components (scheme, user, host, port, path, query, fragment), so the normal form and the host are known without parsing; the request is observed on the wire. Refused identifiers must "
        "cause no request. links: generated link lists, HTTP outcomes and configurations; the adopted issuer, the providers contacted afterwards and the client's configuration are compared with a reference choice. "
        "Non-trivial: identifier with more than a host / several links or a refused one.")
ASSUMPTIONS = ["a bare host name is queried as acct resource (pinned by the repository's tests), user info stays in the authority of a URL (likewise)",
               "URI schemes other than http, https and acct, empty query or fragment parts, and unescaped @ or : in the user part are not generated"]

REL = "http://openid.net/specs/connect/1.0/issuer"
LABEL = st.sampled_from(["example.com", "op0.example.org", "p1.example.com", "localhost", "sub.x-y.example", "1host.example.net", "EXAMPLE.com", "10.0.0.1", "ex%C3%A4mple.org", "xn--exmple-cua.com"])
UCH = "abcXYZ019._-+~%40!$&'*=;"
USER = st.text(UCH, min_size=1, max_size=10).filter(lambda s: s[0] not in "=!").map(lambda s: s.replace("%", "%25"))
PATH = st.one_of(st.just("/"), st.lists(st.text("abzAZ09._-~:@!$&'()*+,;=é ", min_size=0, max_size=6), min_size=1, max_size=3).map(lambda l: "/" + "/".join(l)).filter(lambda p: not p.startswith("//") and p == p.strip()))
QUERY = st.text("abzAZ09._-~:@/?&=+%é", min_size=1, max_size=10)
FRAG = st.text("abzAZ09._-~:@/?&=+#", min_size=1, max_size=6)


@st.composite
def identifiers(draw):
    scheme = draw(st.sampled_from([None, None, None, "acct", "https", "http", "HTTPS", "Http", "ACCT"]))
    opt = lambda s, n=2: draw(st.one_of(*([st.none()] * n + [s])))
    return {"scheme": scheme, "user": draw(USER) if scheme in ("acct", "ACCT") else opt(USER, 1), "host": draw(LABEL), "port": opt(st.integers(1, 65535)), "path": opt(PATH), "query": opt(QUERY),
            "fragment": opt(FRAG), "how": draw(st.sampled_from(["args", "kwargs", "config", "args over config", "kwargs over config", "args over kwargs"])), "refused": draw(st.sampled_from(REFUSED)) if draw(st.integers(0, 5)) == 5 else None}


REFUSED = ["=xri*joe", "@example*joe", "!example!joe", "//example.com/joe", "https:///joe", "http:", "https:?x=y", "acct:joe", "acct:", "acct:joe/x@example.com", "", "=joe@example.com", "@joe@example.com", "!example.com",
           "https://[::1/joe", "acct:joe#@example.com"]


def build(d):
    """(identifier, normal form, host, port)"""
    host = d["host"] + (":%d" % d["port"] if d["port"] else "")
    user = d["user"] + "@" if d["user"] else ""
    tail = (d["path"] or "") + ("?" + d["query"] if d["query"] else "")
    frag = "#" + d["fragment"] if d["fragment"] else ""
    if d["scheme"] is None:
        ident = user + host + tail + frag
        if not d["port"] and not tail and not frag:
            norm = "acct:" + ident
        else:
            norm = "https://" + user + host + tail
    elif d["scheme"].lower() == "acct":
        ident = d["scheme"] + ":" + user + host + tail + frag
        norm = "acct:" + user + host + tail
    else:
        ident = d["scheme"] + "://" + user + host + tail + frag
        norm = d["scheme"].lower() + "://" + user + host + tail
    return ident, norm, host


class Anywhere(dict):
    """Every host is served"""

    def __init__(self, handler):
        dict.__init__(self)
        self.handler = handler

    def get(self, k, d=None):
        return {"": self.handler}


def is_webfinger_request(r, norm, host):
    u = urlsplit(r.url)
    eq(r.method, "GET", "method")
    eq(u.scheme, "https", "scheme of the query")
    h = u.netloc.rpartition("@")[2]
    eq(h.lower(), host.lower(), "host asked")
    eq(u.path, "/.well-known/webfinger", "path")
    eq(u.fragment, "", "fragment")
    eq(sorted(parse_qsl(u.query, keep_blank_values=True)), sorted([("resource", norm), ("rel", REL)]), "query")


@test(identifiers(), quick=6000, thorough=80000)
def identifier(d, t):
    ident, norm, host = build(d)
    if d["refused"] is not None:
        ident = d["refused"]
    with World() as w:
        op = OP(w, 0)
        c = client_conf(op, dynamic=True)
        other = "acct:someone@else.example.org"
        if d["how"] == "config":
            c["resource"] = ident
        elif d["how"] in ("args over config", "kwargs over config"):
            c["resource"] = other
        rh = handler({"": c})
        client = rh.init_client("")
        links = [{"rel": REL, "href": "https://the.issuer.example.org"}]
        w.handlers = Anywhere(lambda req: response(200, {"subject": "x", "links": links}))
        srv = client.client_get("service", "webfinger")
        before = ctx(client).issuer
        if d["how"] in ("kwargs", "kwargs over config"):
            out = attempt(client.do_request, "webfinger", resource=ident)
            par = attempt(srv.get_request_parameters, resource=ident)
        elif d["how"] == "config":
            out = attempt(client.do_request, "webfinger")
            par = attempt(srv.get_request_parameters)
        elif d["how"] == "args over kwargs":
            out = attempt(client.do_request, "webfinger", request_args={"resource": ident}, resource=other)
            par = attempt(srv.get_request_parameters, request_args={"resource": ident}, resource=other)
        else:
            out = attempt(client.do_request, "webfinger", request_args={"resource": ident})
            par = attempt(srv.get_request_parameters, request_args={"resource": ident})
        if d["refused"] is not None:
            if ident == "" and d["how"] not in ("args", "kwargs"):
                return
            check(not out.ok, "identifier {!r} wasn't refused, asked {}", ident, w.log)
            eq(w.log, [], "requests for a refused identifier {!r}".format(ident))
            eq(ctx(client).issuer, before, "issuer")
            t.nontriv("refused")
            return
        check(out.ok, "identifier {!r}: {!r}", ident, out)
        eq(len(w.log), 1, "requests")
        is_webfinger_request(w.log[0], norm, host)
        eq(par.value["method"], "GET", "method")
        q = single(query_of(par.value["url"]))
        eq(q, {"resource": norm, "rel": REL}, "parameters of the prepared request")
        eq(urlsplit(par.value["url"]).netloc.rpartition("@")[2], host, "host of the prepared request")
        eq(ctx(client).issuer, "https://the.issuer.example.org", "issuer")
        if any(d[k] for k in ("user", "port", "path", "query", "fragment", "scheme")):
            t.nontriv("scheme:%s" % d["scheme"], *[k for k in ("user", "port", "path", "query", "fragment") if d[k]])


RELS = [REL, REL, REL, REL + "/", REL[:-1], REL.upper(), "http://webfinger.net/rel/profile-page", "issuer", "https" + REL[4:]]
HREFS = ["https://op0.example.org", "https://op1.example.org", "https://op0.example.org", "https://op1.example.org", "http://op0.example.org", "HTTP://op1.example.org", "Http://op0.example.org", " http://op0.example.org",
         "https://op2.example.org/", None]
HTTP = ["ok"] * 9 + ["404", "404 with links", "500", "302", "garbage", "no links", "error", "links type", "no rel", "empty", "down"]


@st.composite
def linksets(draw):
    return {"links": draw(st.lists(st.fixed_dictionaries({"rel": st.sampled_from(RELS), "href": st.sampled_from(HREFS), "type": st.sampled_from([None, "text/html"])}), max_size=4)), "http": draw(st.sampled_from(HTTP))}


@st.composite
def linkcases(draw):
    return {"sets": draw(st.lists(linksets(), min_size=1, max_size=3)), "allow": draw(st.sampled_from([None, None, {}, {"http_links": False}, {"http_links": True}, {"other": True}])),
            "ctype": draw(st.sampled_from(["application/jrd+json", "application/json", "application/jrd+json; charset=utf-8"])), "via": draw(st.sampled_from(["handler", "handler", "service"])),
            "static": draw(st.lists(st.sampled_from([0, 1]), max_size=2, unique=True)), "known": draw(st.lists(st.sampled_from([0, 1]), max_size=2, unique=True))}


def pick(links, allow):
    """The issuer to adopt or None."""
    for l in links:
        if l["rel"] == REL:
            if l["href"] is None:
                return None
            if l["href"].strip().lower().startswith("http://") and not (allow or {}).get("http_links"):
                return None
            return l["href"]
    return None


@test(linkcases(), quick=4000, thorough=50000)
def links(case, t):
    with World() as w:
        run(case, t, w)


def run(case, t, w):
    ops = [OP(w, 0), OP(w, 1)]
    srv = services()
    if case["allow"] is not None:
        srv["web_finger"] = {"class": "oidcrp.oidc.webfinger.WebFinger", "kwargs": {"conf": {"allow": dict(case["allow"])}}}
    confs = {"": {k: v for k, v in client_conf(ops[0], dynamic=True).items() if k != "issuer"}}
    for i in case["static"]:
        confs[ops[i].issuer] = client_conf(ops[i])
    rh = handler(confs, services=srv)
    if case["via"] == "handler":
        for i in case["known"]:
            rh.begin(ops[i].issuer)
    client = None
    for n, ls in enumerate(case["sets"]):
        doc = {"subject": "acct:joe@users.example.net", "links": [{k: v for k, v in l.items() if v is not None} for l in ls["links"]]}
        h = ls["http"]

        def answer(req):
            if h == "404":
                return response(404, "no", "text/plain")
            if h == "404 with links":
                return response(404, doc, case["ctype"])
            if h == "500":
                return response(500, doc, case["ctype"])
            if h == "302":
                return response(302, doc, case["ctype"], headers={"Location": "https://op1.example.org/"})
            if h == "garbage":
                return response(200, "{" + json.dumps(doc), case["ctype"])
            if h == "no links":
                return response(200, {k: v for k, v in doc.items() if k != "links"}, case["ctype"])
            if h == "error":
                return response(400, dict(doc, error="invalid_request"), "application/json")
            if h == "links type":
                return response(200, dict(doc, links="https://op0.example.org"), case["ctype"])
            if h == "no rel":
                return response(200, dict(doc, links=[{"href": "https://op0.example.org"}]), case["ctype"])
            if h == "empty":
                return response(200, "", case["ctype"])
            if h == "down":
                return None
            return response(200, doc, case["ctype"])

        w.serve("users.example.net", answer)
        want = pick(ls["links"], case["allow"]) if h == "ok" else None
        mark = len(w.log)
        user = "joe%d@users.example.net" % n
        if case["via"] == "service":
            if client is None:
                client = rh.init_client("")
            before = ctx(client).issuer
            out = attempt(client.do_request, "webfinger", resource=user)
            eq(len(w.log) - mark, 1, "requests")
            if want is None:
                eq(ctx(client).issuer, before, "issuer after {} {}".format(h, ls["links"]))
                if any(l["rel"] == REL for l in ls["links"]) or h != "ok":
                    check(not out.ok or "error" in out.value or h in ("links type", "no rel"), "unusable WebFinger response {} {} was accepted: {!r}", h, ls["links"], out)
            else:
                check(out.ok, "WebFinger response {}: {!r}", ls["links"], out)
                eq(ctx(client).issuer, want, "issuer")
        else:
            known = dict(rh.issuer2rp)
            out = attempt(rh.begin, user_id=user)
            wf = w.since(mark, "users.example.net")
            eq(len(wf), 1, "WebFinger requests")
            is_webfinger_request(wf[0], "acct:" + user, "users.example.net")
            rest = [r for r in w.log[mark:] if r.netloc != "users.example.net"]
            op = next((o for o in ops if o.issuer == want), None)
            if op is None:
                check(not out.ok, "a login was started after {} {}", h, ls["links"])
                eq(rh.issuer2rp, known, "clients")
                if want is None:
                    eq(rest, [], "requests after an unusable WebFinger response")
            else:
                check(out.ok, "login at {}: {!r}", want, out)
                check(out.value["url"].startswith(op.ep("authorization_endpoint")), "login at {} instead of {}", out.value["url"], want)
                check(all(r.netloc == op.netloc for r in rest), "requests to others than the issuer: {}", rest)
                eq(rh.state2issuer(out.value["state"]), op.issuer, "issuer of the login")
                q = single(query_of(out.value["url"]))
                if op.i in case["static"]:
                    eq(q["client_id"], "client-%d" % op.i, "client used")
                if op.issuer in known:
                    check(rh.issuer2rp[op.issuer] is known[op.issuer], "another client for a known issuer")
                check(all(rh.issuer2rp.get(k) is v for k, v in known.items()), "other clients were replaced")
        if len(ls["links"]) > 1 or want is None:
            t.nontriv("http:" + h, "adopted" if want else "nothing")
