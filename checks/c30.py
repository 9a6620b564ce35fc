"""C30: What is secret between a client and one provider is only sent to that provider."""
import base64
import hashlib
import json
import os
import re
from urllib.parse import parse_qsl, unquote, unquote_plus, urlencode, urlsplit

from hypothesis import strategies as st

import world as W
from clock import Clock
from op import OP, PKCE, TENANTS, World, client_conf, ctx, handler, query_of, response, services, single
from vt import attempt, check, fail, test

RULE = ("Case = two or three providers (own hosts, shared hosts, endpoints on hosts of their own), per provider how the client authenticates, response type, add-ons, request objects, and a history of logins, token requests, refreshes, user info, "
        "distributed claims, logouts, session checks, registration reads, back-channel logouts, with answers that redirect to elsewhere, fail, set cookies, or name other endpoints, sources and identifiers. After every step everything that was sent (headers, bodies, URLs, also what's encoded in them), "
        "returned or recorded is searched for every secret that exists; each may only be where it belongs. Non-trivial: at least three kinds of secrets of at least two providers were found where they belong.")
ASSUMPTIONS = ["where a provider's endpoints are is what its provider information says", "a published request object is part of the front channel", "a provider that redirects a pushed authorization request is out of scope (requests follows it)"]
EVIL = "https://evil.example.org"
SECRET_OF_LOGIN = ("code", "access token", "refresh token", "id token", "nonce", "state")
RTS = ["code", "code", "code", "code id_token", "code token", "id_token token", "code id_token token"]


@st.composite
def cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    n = d(2, 2, 3)
    ps = [{"places": d(None, None, "token", "userinfo", "both"), "dyn": d(True, False), "method": d("client_secret_basic", "client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"), "rt": d(*RTS), "alg": d("RS256", "ES256", "HS256"),
           "addons": draw(st.sampled_from([[], ["pkce"], ["pkce"], ["dpop"], ["pkce", "dpop"], ["par"], ["pkce", "par"]])), "jar": d(None, None, "request", "request_uri"), "post": d(False, False, True), "rat": d(True, False), "methods": d(None, ["S256"], ["plain"], ["plain", "S256"]), "query": d("", "", "?x=y"),
           "suffix": d("Z", "Z", "+/=Z", " &Z", "é%20Z", "~._-Z")} for _ in range(n)]
    ops = []
    for i in range(draw(st.integers(2, 4))):
        ops.append(["begin", d(*range(n)), d("u%d" % i, "u0"), d(None, None, None, None, "redirect", "extra")])
        if d(True, True, True, False):
            ops.append(["finish", i, None, d(None, None, "extra", "cookie", "sources")])
        for _ in range(draw(st.integers(1, 5))):
            k = d("finish", "finish", "finish", "redirect", "tokens", "refresh", "refresh", "userinfo", "distributed", "logout", "check", "regread", "backchannel", "clear", "bad", "foreign")
            ops.append([k, draw(st.integers(0, 3)), d(None, "a", "b"), d(None, None, None, "redirect", "redirect", "extra", "extra", "cookie", "error", "sources")])
    return {"tenants": draw(st.sampled_from(TENANTS)) + [""], "ps": ps, "ops": ops, "code": d(301, 302, 303, 307, 308), "target": d("evil", "evil", "next"), "lib": d(None, "shared"), "generic": d(False, False, True)}


class Run:
    def __init__(self, c, w, folder):
        self.c, self.w = c, w
        self.ops, confs = [], {}
        self.logins, self.cookies, self.rats, self.sources = [], {}, {}, {}
        self.n_sources = 0
        self.seen, self.mark, self.hostile = set(), 0, None
        for i, p in enumerate(c["ps"]):
            api = "https://api%d.example.org" % i
            tenant = c["tenants"][i]
            names = {"token": ["token_endpoint"], "userinfo": ["userinfo_endpoint"], "both": ["token_endpoint", "userinfo_endpoint"], None: []}[p["places"]]
            meta = {"request_parameter_supported": True, "request_uri_parameter_supported": True, "request_object_signing_alg_values_supported": ["RS256"], "dpop_signing_alg_values_supported": ["ES256"], "backchannel_logout_supported": True, "backchannel_logout_session_supported": True}
            if p["methods"]:
                meta["code_challenge_methods_supported"] = p["methods"]
            o = OP(w, i, alg=p["alg"], tenant=tenant, meta=meta, places={n: api for n in names}, endpoint_query=p["query"])
            o.suffix = p["suffix"]
            o.rt_suffix = o.code_suffix = p["suffix"]
            o.par_hook = lambda req, o=o: self.par(o, req)
            o.reg_hook = lambda req, o=o: self.register(o, req)
            self.pushed = {}
            if "par" in p["addons"]:
                o.meta["pushed_authorization_request_endpoint"] = o.base + "/par"
            conf = client_conf(o, p["rt"], dynamic=p["dyn"])
            b = conf["client_preferences" if p["dyn"] else "behaviour"]
            b["token_endpoint_auth_method"] = p["method"]
            b["id_token_signed_response_alg"] = p["alg"]
            if p["jar"]:
                b["request_object_signing_alg"] = "RS256"
                b["request_param"] = p["jar"]
            conf["local_dir"], conf["base_path"] = folder, "https://rp.example.com/req/"
            conf["backchannel_logout_uri"] = "https://rp.example.com/bc"
            add = {}
            if "pkce" in p["addons"]:
                add.update(json.loads(json.dumps(PKCE)))
            if "dpop" in p["addons"]:
                add["dpop"] = {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}
            if "par" in p["addons"]:
                add["par"] = {"function": "oidcrp.oauth2.add_on.pushed_authorization.add_support", "kwargs": {"body_format": "urlencoded", "merge_rule": "lax"}}
            if add:
                conf["add_ons"] = add
            srv = self.services(p)
            conf["services"] = srv
            confs["op%d" % i] = conf
            self.ops.append(o)
        if c["generic"] and c["ps"][0]["dyn"]:
            # not configured by name
            conf = confs.pop("op0")
            del conf["issuer"]
            confs[""] = conf
        w.serve("evil.example.org", self.evil)
        kw = {}
        if c["lib"]:
            from oidcrp.http import HTTPLib
            kw["http_lib"] = HTTPLib({"verify": False})
        self.rph = handler(confs, **kw)
        self.generic = c["generic"] and c["ps"][0]["dyn"]
        self.orig, w.dispatch = w.dispatch, self.dispatch

    def services(self, p):
        srv = services()
        srv["rr"] = {"class": "oidcrp.oidc.read_registration.RegistrationRead"}
        srv["check_session"] = {"class": "oidcrp.oidc.check_session.CheckSession"}
        if p["post"]:
            srv["userinfo"]["kwargs"] = {"conf": {"http_method": "POST", "default_authn_method": "bearer_body"}}
        return srv

    # -- the providers ----------------------------------------------------------
    def register(self, o, req):
        r = o.register(req)
        body = json.loads(r.text)
        if self.c["ps"][o.i]["rat"]:
            body["registration_client_uri"] = o.base + "/manage/" + body["client_id"]
            body["registration_access_token"] = "rat-%d-%sZ" % (o.i, body["client_id"])
            self.rats[body["registration_access_token"]] = body["registration_client_uri"]
            self.registered = body
        return response(201, body)

    def par(self, o, req):
        uri = "urn:par:%d:%d" % (o.i, len(self.pushed))
        self.pushed[uri] = req.body
        return response(201, {"request_uri": uri, "expires_in": 60})

    def evil(self, req):
        if req.path.startswith("/claims"):
            return response(200, {"email": "from@source", "sub": "other"})
        return response(200, {"access_token": "at-evil", "token_type": "Bearer", "sub": "u0", "issuer": EVIL, "error_description": "?"})

    def elsewhere(self, o):
        return EVIL + "/steal?x=y" if self.c["target"] == "evil" or o is None else self.ops[(o.i + 1) % len(self.ops)].ep("userinfo_endpoint")

    def dispatch(self, prep, kwargs):
        how, self.hostile = self.hostile, None
        if how is None or urlsplit(prep.url).path.endswith("jwks.json") or urlsplit(prep.url).path.endswith("/par"):
            self.hostile = how
            return self.orig(prep, kwargs)
        res = self.orig(prep, kwargs)
        o = ([x for x in self.ops if prep.url.startswith(x.base)] or [None])[-1]
        if how == "redirect":
            new = response(self.c["code"], res.text, headers={"location": self.elsewhere(o)})
        elif how == "error":
            new = response(401, {"error": "invalid_token", "error_uri": EVIL}, headers={"www-authenticate": 'Bearer realm="%s", error="invalid_token"' % EVIL})
        elif how == "cookie":
            v = "ck-%d-%dZ" % (o.i if o else 9, len(self.cookies))
            self.cookies[v] = o
            new = response(res.status_code, res.text, res.headers.get("content-type"), headers={"set-cookie": "sess=%s; Path=/; Domain=example.org" % v})
        else:
            try:
                body = json.loads(res.text)
            except ValueError:
                return res
            body.update(self.extras(body))
            new = response(res.status_code, body)
        new.url, new.request = res.url, res.request
        return new

    def extras(self, body):
        """Things that don't belong into the answer but look important"""
        x = {"endpoint": EVIL + "/e", "url": EVIL + "/u", "location": EVIL + "/l"}
        for k in ("token_endpoint", "userinfo_endpoint", "end_session_endpoint", "issuer", "iss", "registration_client_uri"):
            if k not in body and not ("client_id" in body and k == "registration_client_uri"):
                x[k] = EVIL + "/" + k
        return x

    # -- the steps --------------------------------------------------------------
    def step(self, k, i, arg, how):
        rph = self.rph
        self.hostile = how if how != "sources" else None
        try:
            if k == "begin":
                o = self.ops[i]
                out = attempt(rph.begin, "op%d" % i if not (self.generic and i == 0) else o.issuer)
                self.hostile = None
                if out.ok:
                    self.front(o, out.value, arg)
                return out, None
            if k == "regread":
                o = self.ops[i % len(self.ops)]
                client = rph.issuer2rp.get(o.issuer)
                if client is None or not getattr(ctx(client), "registration_response", None):
                    return None, None
                return attempt(client.do_request, "registration_read"), None
            if not self.logins:
                return None, None
            l = self.logins[i % len(self.logins)]
            o, state = l["op"], l["state"]
            client = rph.issuer2rp[o.issuer]
            if how == "sources":
                self.with_sources(o, l, arg)
            if k == "finish":
                out = attempt(rph.finalize, o.issuer, dict(l["resp"], **(self.extras(l["resp"]) if how == "extra" and "iss" in l["resp"] else {})))
            elif k == "redirect":
                out = attempt(rph.finalize_auth, client, o.issuer, dict(l["resp"]))
            elif k == "bad":
                out = attempt(rph.finalize, o.issuer, dict(l["resp"], iss=EVIL, token_endpoint=EVIL + "/t", redirect_uri=EVIL))
            elif k == "foreign":
                # a response from another provider with its own code and our state
                other = self.ops[(o.i + 1) % len(self.ops)]
                if other.issuer not in rph.issuer2rp:
                    return None, None
                out = attempt(rph.finalize, other.issuer, {"state": state, "code": "code-of-" + other.owner})
                return out, None
            elif k == "tokens":
                out = attempt(rph.get_tokens, state)
            elif k == "refresh":
                out = attempt(rph.refresh_access_token, state)
            elif k == "userinfo":
                out = attempt(rph.get_user_info, state, **({"access_token": l["lg"].ats[0]} if arg == "a" and l["lg"].ats else {}))
            elif k == "distributed":
                self.with_sources(o, l, arg)
                out = attempt(lambda: client.fetch_distributed_claims(rph.get_user_info(state)))
            elif k == "logout":
                out = attempt(rph.logout, state, **({} if arg is None else {"post_logout_redirect_uri": "https://rp.example.com/bye"}))
                if out.ok:
                    self.front_channel(o, out.value["url"], "end_session_endpoint", l)
                    out.value = None
            elif k == "check":
                out = attempt(client.client_get("service", "check_session").construct, {}, state=state)
            elif k == "clear":
                out = attempt(rph.clear_session, state)
                l["cleared"] = True
            elif k == "backchannel":
                from oidcrp.rp_handler import backchannel_logout
                claims = {"iss": o.issuer, "aud": [ctx(client).client_id], "iat": 1700000000, "jti": "j%d" % len(self.w.log), "events": {"http://schemas.openid.net/event/backchannel-logout": {}}, "sid": l["lg"].sid}
                out = attempt(backchannel_logout, client, request=urlencode({"logout_token": W.sign(claims, o.alg, owner=o.owner, secret=o.secret)}))
                return out, None      # the state is what is asked for
            return out, l
        finally:
            self.hostile = None
            for o in self.ops:
                o.userinfo_hook = None

    def with_sources(self, o, l, arg):
        specs = {}
        for name in {None: "s", "a": "t", "b": "ts"}[arg]:
            tok = "src-%d-%dZ" % (o.i, self.n_sources)
            self.n_sources += 1
            specs[name] = {"endpoint": EVIL + "/claims/" + tok[4:-1]}
            if name == "t":
                specs[name]["access_token"] = tok
                self.sources[tok] = specs[name]["endpoint"]

        def hook(req):
            res = o.userinfo(req)
            if res.status_code != 200:
                return res
            return response(200, dict(json.loads(res.text), _claim_names={x: y for x, y in zip(("email", "phone_number"), specs)}, _claim_sources=json.loads(json.dumps(specs))))
        o.userinfo_hook = hook

    def front(self, o, out, sub):
        q = single(query_of(out["url"]))
        l = {"state": out["state"], "op": o, "n": len(self.logins), "cleared": False}
        texts = [out["url"]]
        if q.get("request_uri", "").startswith("urn:par"):
            q = dict(single(parse_qsl(self.pushed[q["request_uri"]])), request_uri=q["request_uri"])
        elif "request_uri" in q:
            with open(os.path.basename(urlsplit(q["request_uri"]).path)) as fp:
                texts.append(fp.read())
            q = dict(q, **payload(texts[-1]))
        if "request" in q:
            q = dict(q, **payload(q["request"]))
        q = {k: " ".join(v) if isinstance(v, list) else v for k, v in q.items()}
        l["lg"], l["resp"] = o.authorize_params(q, sub=sub, sid="sid-%d" % l["n"])
        l["verifier"] = None
        self.logins.append(l)
        l["front"] = decoded(texts)
        for txt in texts:
            self.front_channel(o, txt, "authorization_endpoint" if txt is out["url"] else None, l)

    # -- where everything is ----------------------------------------------------
    def secrets(self):
        """value -> (kind, provider, login number)"""
        res = {}
        for o in self.ops:
            for cid, s in o.clients.items():
                res[s] = ("client secret", o, None)
        for l in self.logins:
            lg, o, n = l["lg"], l["op"], l["n"]
            res[l["state"]] = ("state", o, n)
            if lg.nonce:
                res[lg.nonce] = ("nonce", o, n)
            if lg.code:
                res[lg.code] = ("code", o, n)
            for kind, vals in (("access token", lg.ats), ("refresh token", lg.rts), ("id token", [x[0] for x in lg.id_tokens])):
                for v in vals:
                    res[v] = (kind, o, n)
            if l["verifier"]:
                res[l["verifier"]] = ("verifier", o, n)
        for v, uri in self.rats.items():
            res[v] = ("registration token", uri, None)
        for v, o in self.cookies.items():
            res[v] = ("cookie", o, None)
        for v, uri in self.sources.items():
            res[v] = ("source token", uri, None)
        for name in ("rp_rsa", "rp_ec256"):
            for k in ("d", "p", "q"):
                if k in W.RAW_KEYS[name]:
                    res[W.RAW_KEYS[name][k]] = ("private key", None, None)
        for client in self.rph.issuer2rp.values():
            k = (ctx(client).add_on.get("dpop") or {}).get("key")
            if k is not None:
                res[k.serialize(private=True)["d"]] = ("private key", None, None)
        res["seed-of-the-handler"] = ("seed", None, None)
        return res

    def front_channel(self, o, txt, endpoint, l):
        if endpoint:
            check(txt.split("?")[0] == o.ep(endpoint).split("?")[0], "{} of {}: {}", endpoint, o.issuer, txt)
        text = decoded([txt])
        for v, (kind, owner, n) in self.secrets().items():
            if v not in text:
                continue
            ok = n == l["n"] and (kind in ("state", "nonce") if endpoint != "end_session_endpoint" else kind == "id token")
            if not ok and n is not None and self.carried(v, kind, n, l):
                continue
            check(ok, "{} of {} (login {}) is in the front channel of login {} at {}: {}", kind, name_of(owner), n, l["n"], o.issuer, text[:1500])
            self.seen.add((kind, o.i))

    def carried(self, v, kind, n, l):
        """An ID Token carries the nonce of its login"""
        return kind == "nonce" and n == l["n"]

    def requests(self):
        for r in self.w.log[self.mark:]:
            url = decoded([r.url])
            rest = decoded([r.body] + ["%s: %s" % (k, x) for k, x in r.headers.items()])
            self.find_verifiers(r, url + "\n" + rest)
            for v, (kind, owner, n) in self.secrets().items():
                in_url = v in url
                if not in_url and v not in rest:
                    continue
                ok = not in_url and allowed(kind, owner, r)
                if not ok and kind in ("nonce", "state") and allowed("nonce", owner, r):
                    ok = True
                if not ok and kind == "nonce" and any(allowed(k2, o2, r) and v2 in rest for v2, (k2, o2, n2) in self.secrets().items() if n2 == n and k2 == "id token"):
                    ok = True
                check(ok, "{} of {} is sent in {}: {} {} {}", kind, name_of(owner), "the URL" if in_url else "the request", r.method, r.url, rest[:1500])
                self.seen.add((kind, owner.i if isinstance(owner, OP) else -1))
            self.assertions(r, rest)
        self.mark = len(self.w.log)

    def find_verifiers(self, r, text):
        p = dict(r.form) if r.method == "POST" else {}
        for l in self.logins:
            if p.get("code_verifier") and p.get("code") == l["lg"].code and r.base == l["op"].ep("token_endpoint").split("?")[0]:
                l["verifier"] = p["code_verifier"]
                for other in self.logins:
                    check(p["code_verifier"] not in other["front"], "the verifier of login {} was in the front channel: {}", l["n"], other["front"])
        challenges = {l["lg"].request.get("code_challenge"): l for l in self.logins if l["lg"].request.get("code_challenge")}
        if not challenges:
            return
        for v in set(re.findall(r"[A-Za-z0-9\-._~]{43,128}", text)):
            l = challenges.get(base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).decode().rstrip("="))
            if l is not None:
                l["verifier"] = v

    def assertions(self, r, text):
        for tok in re.findall(r"eyJ[\w-]+\.[\w-]+\.[\w-]+", text):
            p = payload(tok)
            if isinstance(p, dict) and p.get("sub") and p.get("sub") == p.get("iss"):
                for o in self.ops:
                    if p["sub"] in o.clients:
                        check(r.base == o.ep("token_endpoint").split("?")[0] and r.method == "POST", "assertion for {} is sent to {}", o.issuer, r.url)
                        self.seen.add(("assertion", o.i))

    def results(self, k, out, l):
        """Neither what's returned nor what's recorded has anything of another login"""
        sec = self.secrets()
        if l is not None and out.ok and out.value is not None:
            v = out.value
            text = decoded([json.dumps(v.to_dict() if hasattr(v, "to_dict") else v, default=str)])
            self.only(sec, text, l, "returned by " + k)
        for l in self.logins:
            if l["cleared"]:
                continue
            s = ctx(self.rph.issuer2rp[l["op"].issuer]).state
            rec = attempt(s.get_state, l["state"])
            if rec.ok:
                self.only(sec, decoded([rec.value.to_json()]), l, "recorded")

    def only(self, sec, text, l, where):
        for v, (kind, owner, n) in sec.items():
            if kind in SECRET_OF_LOGIN and n != l["n"] and v in text:
                fail("{} of login {} at {} is {} for login {} at {}", kind, n, name_of(owner), where, l["n"], l["op"].issuer)


def name_of(owner):
    return owner.issuer if isinstance(owner, OP) else owner


def payload(tok):
    p = tok.split(".")[1]
    try:
        return json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))
    except ValueError:
        return {}


def decoded(texts):
    """All that can be read in it"""
    res, todo = [], [x for x in texts if x]
    while todo:
        txt = todo.pop()
        if txt in res:
            continue
        res.append(txt)
        if len(res) > 60:
            break
        todo += [unquote(txt), unquote_plus(txt)] if "%" in txt or "+" in txt else []
        if "\\" in txt:
            todo.append(txt.replace("\\/", "/").replace('\\"', '"'))
            if "\\u" in txt:
                todo.append(re.sub(r"\\u([0-9a-f]{4})", lambda m: chr(int(m.group(1), 16)), txt))
        for b in re.findall(r"Basic\s+([A-Za-z0-9+/=_-]+)", txt):
            try:
                todo.append(base64.b64decode(b).decode("utf-8", "replace"))
            except ValueError:
                pass
        for tok in re.findall(r"eyJ[\w-]+\.[\w-]*\.[\w-]*", txt):
            for p in tok.split(".")[:2]:
                try:
                    todo.append(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)).decode("utf-8", "replace"))
                except ValueError:
                    pass
    return "\n".join(res)


def allowed(kind, owner, r):
    if kind in ("private key", "seed", "id token"):
        return False
    if kind in ("registration token", "source token"):
        return owner is not None and r.base == owner.split("?")[0]
    if kind == "cookie":
        return owner is not None and r.url.startswith(owner.base)
    at = lambda *names: r.base in [owner.ep(n).split("?")[0] for n in names]  # noqa
    if kind in ("state", "nonce"):
        return at("token_endpoint", "pushed_authorization_request_endpoint")
    if kind == "access token":
        return at("userinfo_endpoint")
    return at("token_endpoint")


@test(cases(), quick=2500, thorough=30000)
def secrets(c, t):
    for name in os.listdir("."):
        if name.endswith(".jwt"):
            os.unlink(name)
    with Clock():
        with World() as w:
            r = Run(c, w, os.getcwd())
            for k, i, arg, how in c["ops"]:
                if k == "begin" and i >= len(r.ops):
                    continue
                out, l = r.step(k, i, arg, how)
                if out is None:
                    continue
                if k == "begin" and out.ok:
                    t.label(*["begin:" + x for x in c["ps"][i]["addons"] + [str(c["ps"][i]["jar"])]])
                t.label(k + (":ok" if out.ok else ":" + type(out.exc).__name__), "answer:%s" % how)
                r.requests()
                r.results(k, out, l)
            kinds = {k for k, _ in r.seen}
            for k in kinds:
                t.label("seen:" + k)
            if len(kinds) >= 3 and len({i for _, i in r.seen if i >= 0}) >= 2:
                t.nontriv()
