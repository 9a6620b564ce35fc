"""C34: A login that is done step by step is the same as one that is done with begin and finalize."""
import base64
import json
import re
from urllib.parse import parse_qsl, urlsplit

from hypothesis import strategies as st

from clock import Clock
from op import OP, RT, World, client_conf, ctx, handler, query_of, single, store_dump
from vt import attempt, check, eq, test

RULE = ("logins: case = two providers, their configuration (static/dynamic, response type, further services, what they return, failures) and up to four logins; each is begun and completed with a drawn sequence of single steps (by client or by session key, "
        "with what was returned or what was stored), and in a second world with begin and finalize. Results, requests at the provider, session information, and later answers have to be equal. keys: case = histories, then an operation for a key which isn't one of a session; it has to be refused without any request and without "
        "changing a record. Non-trivial: a login in single steps got as far as tokens or an error; the key was refused.")
ASSUMPTIONS = ["states, nonces and what is made from them differ between the two runs and are replaced by their position", "the clock stands still", "what finalize keeps for logout notifications (user and session identifier) isn't part of the steps"]

JWT = re.compile(r"eyJ[\w-]+\.eyJ[\w-]+\.[\w-]+")


@st.composite
def cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    confs = [{"dyn": d(True, False), "rt": d(*RT), "pi": d(True, False), "multi": d(False, True), "method": d("client_secret_basic", "client_secret_post"), "life": d(None, 60, 3600), "refresh": d(True, False), "args": d(None, {"max_age": 3}, {"claims": {"id_token": {"email": None}}})} for _ in (0, 1)]
    login = st.fixed_dictionaries({
        "i": st.integers(0, 1), "begin": st.sampled_from(["begin", "steps", "state", "again", "manual"]), "finish": st.sampled_from(["finalize", "steps", "steps", "steps"]), "user": st.sampled_from(["u1", "u2"]),
        "who": st.sampled_from(["client", "key", "both"]), "tokens": st.sampled_from(["response", "state", "state", "both", "alone"]), "ui": st.sampled_from(["given", "stored"]), "req": st.sampled_from([None, None, {"prompt": "login"}, {"response_type": "code"}, {"scope": ["openid", "email"]}, {"nonce": "n0nce"}]),
        "fail": st.sampled_from([None] * 7 + ["authz", "state", "token", "userinfo", "idt", "sub"]), "repeat": st.sampled_from([False, False, True]), "collect": st.sampled_from([False, False, True]), "after": st.sampled_from([None, None, "refresh", "logout", "clear"])})
    return {"confs": confs, "logins": draw(st.lists(login, min_size=1, max_size=4)), "drop": d((), (), ("userinfo",))}


class Normal:
    """replaces what is random by its order of appearance"""

    def __init__(self):
        self.names = []

    def add(self, v, what):
        if v and v not in [n[0] for n in self.names]:
            self.names.append((v, "<%s%d>" % (what, len(self.names))))

    def __call__(self, x):
        s = x if isinstance(x, str) else json.dumps(x, sort_keys=True, default=lambda o: o.to_dict() if hasattr(o, "to_dict") else str(o))

        def dec(m):
            p = m.group(0).split(".")[1]
            return json.dumps(json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4))), sort_keys=True).replace('"', "'")
        s = JWT.sub(dec, s)
        for v, n in self.names:
            s = s.replace(v, n)
        return s


def requests_of(w, norm):
    res = []
    for r in w.log:
        body = r.body.decode() if isinstance(r.body, bytes) else r.body or ""
        ct = (r.headers.get("content-type") or "").split(";")[0]
        b = sorted(parse_qsl(body)) if ct == "application/x-www-form-urlencoded" else body
        if ct == "application/json":
            b = json.loads(body)
        u = urlsplit(r.url)
        res.append(norm([r.method, u.netloc, u.path, sorted(parse_qsl(u.query)), ct, b, r.headers.get("Authorization")]))
    return res


def outcome(out):
    if not out.ok:
        return ["exception", type(out.exc).__name__]
    return out.value


def result(u, state, token, idt, session_state=""):
    return {"userinfo": u.to_dict() if hasattr(u, "to_dict") else u, "state": state, "token": token, "id_token": idt.to_dict() if idt else None, "session_state": session_state}


class Run:
    def __init__(self, c, w, stepwise):
        self.c, self.w, self.stepwise = c, w, stepwise
        self.ops, confs = [], {}
        for i, k in enumerate(c["confs"]):
            o = OP(w, i)
            o.expires_in, o.give_refresh = k["life"], k["refresh"]
            rts = [k["rt"]] + (["code"] if k["multi"] and k["rt"] != "code" else [])
            conf = client_conf(o, rts, dynamic=k["dyn"])
            conf["client_preferences" if k["dyn"] else "behaviour"]["token_endpoint_auth_method"] = k["method"]
            if k["pi"]:
                pi = o.metadata()
                pi["keys"] = {"url": {o.issuer: pi.pop("jwks_uri")}}
                conf["provider_info"] = pi
                if k["dyn"]:        # preferences are for what is discovered
                    conf["behaviour"] = conf.pop("client_preferences")
            if k["args"]:
                conf["request_args"] = json.loads(json.dumps(k["args"]))
            confs["op%d" % i] = conf
            self.ops.append(o)
        self.rph = handler(confs, drop=c["drop"])
        self.norm = Normal()
        self.sessions = []

    def begin(self, lg):
        rph, name, how = self.rph, "op%d" % lg["i"], lg["begin"] if self.stepwise else "begin"
        args = json.loads(json.dumps(lg["req"]))
        mine = [s for s in self.sessions if s[0] == lg["i"]]
        if how == "state" and not mine:
            how = "steps"
        if how == "again" and not mine:
            how = "manual"
        if how == "begin":
            return rph.begin(name, req_args=args)
        if how == "steps":
            client = rph.client_setup(name)
            return rph.init_authorization(client, req_args=args)
        if how == "state":
            return rph.init_authorization(state=mine[-1][1], req_args=args)
        if how == "again":
            # what was done already
            client = rph.get_client_from_session_key(mine[0][1])
            n = len(self.w.log)
            iss = rph.do_provider_info(state=mine[0][1])
            eq(iss, self.ops[lg["i"]].issuer, "issuer of do_provider_info")
            rph.do_client_registration(state=mine[0][1], iss_id=name)
            # keys may be fetched, nothing else
            check(all(r.path == "/jwks.json" for r in self.w.log[n:]), "requests when a client is set up again: {!r}", self.w.log[n:])
            self.w.log[n:] = []
            return rph.init_authorization(client, req_args=args)
        if self.ops[lg["i"]].issuer in rph.issuer2rp:
            return rph.init_authorization(rph.issuer2rp[self.ops[lg["i"]].issuer], req_args=args)
        client = rph.init_client(name)
        iss = rph.do_provider_info(client)
        eq(iss, self.ops[lg["i"]].issuer, "issuer of do_provider_info")
        rph.do_client_registration(client, name)
        rph.issuer2rp[iss] = client
        return rph.init_authorization(client, req_args=args)

    def finish(self, lg, state, resp):
        rph, o = self.rph, self.ops[lg["i"]]
        if not self.stepwise or lg["finish"] == "finalize":
            r = rph.finalize(o.issuer, resp, **({"behaviour_args": {"collect_tokens": True}} if lg["collect"] else {}))
            if "error" in r:
                return r
            return result(r["userinfo"], r["state"], r["token"], r["id_token"], r["session_state"])
        client = rph.get_client_from_session_key(state)
        check(client is rph.issuer2rp[o.issuer], "client of the session key")
        by = {} if lg["who"] == "key" else {"client": client}
        bt = dict(by, **({"behaviour_args": {"collect_tokens": True}} if lg["collect"] else {}))
        ar = rph.finalize_auth(client, o.issuer, resp)
        if "error" in ar:
            return {"state": ar["state"], "error": ar["error"]}
        if lg["tokens"] == "response":
            tok = rph.get_access_and_id_token(ar, **dict(bt, **({} if lg["who"] == "client" else {"state": state})))
        elif lg["tokens"] == "state":
            tok = rph.get_access_and_id_token(state=state, **bt)
        elif lg["tokens"] == "alone":
            tok = rph.get_access_and_id_token(ar, **{k: v for k, v in bt.items() if k != "client"})
        else:
            tok = rph.get_access_and_id_token(ar, state, **bt)
        eq(sorted(tok), ["access_token", "id_token"], "get_access_and_id_token")
        if "userinfo" not in self.c["drop"] and tok["access_token"]:
            ui = rph.get_user_info(state, **dict(by, **({"access_token": tok["access_token"]} if lg["ui"] == "given" else {})))
        elif tok["id_token"]:
            ui = rph.userinfo_in_id_token(tok["id_token"])
        else:
            ui = {}
        return result(ui, ar["state"], tok["access_token"], tok["id_token"], ar.get("session_state", ""))

    def login(self, lg):
        o = self.ops[lg["i"]]
        log = []
        out = attempt(self.begin, lg)
        if not out.ok:
            return ["begin"] + outcome(out)
        state = out.value["state"]
        eq(sorted(out.value), ["state", "url"], "result of begin")
        params = single(query_of(out.value["url"]))
        self.norm.add(state, "state")
        self.norm.add(params.get("nonce"), "nonce")
        log.append(self.norm([out.value["url"].split("?")[0], params]))
        self.sessions.append((lg["i"], state))
        f = lg["fail"]
        if f == "idt":
            o.claims_extra = {"nonce": "wrong"}
        lgn, resp = o.authorize(out.value["url"], sub=lg["user"])
        if f == "idt":
            lgn.claims = {"aud": ["another"]}
            if "id_token" in resp:
                resp["id_token"] = o.id_token(lgn, at=resp.get("access_token"), code=resp.get("code"))
        elif f == "authz":
            resp = {"state": state, "error": "access_denied"}
        elif f == "state":
            resp["state"] = "unknown"
        o.token_hook = (lambda req: __import__("world").response(400, {"error": "invalid_grant"})) if f == "token" else None
        if f == "userinfo":
            o.userinfo_hook = lambda req: __import__("world").response(403, {"error": "insufficient_scope"})
        elif f == "sub":
            o.userinfo_hook = lambda req: __import__("world").response(200, {"sub": "somebody"})
        out = attempt(self.finish, lg, state, dict(resp))
        res = outcome(out)
        log.append(self.norm(res))
        if lg["repeat"] and out.ok and "error" not in res:
            rep = attempt(self.finish, lg, state, dict(resp))
            log.append(self.norm(outcome(rep)))
        o.token_hook = o.userinfo_hook = None
        info = attempt(self.rph.get_session_information, state)
        log.append(self.norm(info.value.to_dict() if info.ok and hasattr(info.value, "to_dict") else outcome(info)))
        log.append(self.norm([outcome(attempt(self.rph.has_active_authentication, state)), outcome(attempt(self.rph.get_valid_access_token, state)), self.rph.state2issuer(state)]))
        self.done = getattr(self, "done", 0) + (1 if lg["finish"] == "steps" and (f == "authz" or out.ok) else 0)
        if lg["after"] == "refresh":
            r = attempt(self.rph.refresh_access_token, state)
            log.append(self.norm(r.value.to_dict() if r.ok else outcome(r)))
            if "userinfo" not in self.c["drop"]:
                u = attempt(self.rph.get_user_info, state)
                log.append(self.norm(u.value.to_dict() if u.ok else outcome(u)))
                if r.ok and u.ok:
                    eq(u.value["via"], r.value["access_token"], "token used after a refresh")
            log.append(self.norm(outcome(attempt(self.rph.get_valid_access_token, state))))
        elif lg["after"] == "logout":
            r = attempt(self.rph.close, state) if self.stepwise else attempt(self.rph.logout, state)
            log.append(self.norm([r.value["url"].split("?")[0], {k: v for k, v in single(query_of(r.value["url"])).items() if k != "state"}] if r.ok else outcome(r)))
        elif lg["after"] == "clear":
            self.rph.clear_session(state)
            eq(self.rph.state2issuer(state), None, "issuer of a cleared session")
            self.sessions = [s for s in self.sessions if s[1] != state]
        return log

    def types(self):
        return [list(x) for x in sorted((n, self.rph.get_response_type(cl)) for n, cl in self.rph.issuer2rp.items())]


@test(cases(), quick=700, thorough=10000)
def logins(c, t):
    runs = []
    for stepwise in (True, False):
        with World() as w, Clock():
            r = Run(c, w, stepwise)
            logs = [r.login(lg) for lg in c["logins"]]
            keep = {}
            for iss, cl in r.rph.issuer2rp.items():
                keep[iss] = sorted(r.norm(v) for k, v in store_dump(cl).items() if any(k == s[1] for s in r.sessions))
            runs.append({"logs": logs, "requests": requests_of(w, r.norm), "records": keep, "response types": r.types(), "done": getattr(r, "done", 0)})
    a, b = runs
    for i, (x, y) in enumerate(zip(a["logs"], b["logs"])):
        for j, (p, q) in enumerate(zip(x, y)):
            eq(p, q, "login {} ({}): step by step (got) and all at once (expected), entry {}".format(i, c["logins"][i], j))
        eq(len(x), len(y), "login {}".format(i))
    eq(a["requests"], b["requests"], "requests step by step and all at once")
    eq(a["records"], b["records"], "records step by step and all at once")
    eq(a["response types"], b["response types"], "response types")
    for iss, rt in a["response types"]:
        i = int(iss[len("https://op")])
        eq(rt, c["confs"][i]["rt"], "response type of " + iss)
    t.nontriv(a["done"] > 0)


OPS = ["get_session_information", "do_provider_info", "do_client_registration", "init_authorization", "get_tokens", "refresh_access_token", "get_user_info", "get_access_and_id_token", "has_active_authentication", "get_valid_access_token", "logout", "close", "clear_session", "get_client_from_session_key",
       "client:get_session_information", "client:get_tokens", "client:refresh_access_token", "client:get_user_info", "client:get_access_and_id_token"]


@st.composite
def key_cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    return {"rt": d("code", "code", "id_token token", "code id_token"), "dyn": d(True, False), "n": d(0, 1, 2), "done": d(True, True, False), "key": d("never", "empty", "cleared", "foreign", "nonce", "sub", "sid", "issuer", "prefix", "case", "space", "code", "number", "client_id"), "ops": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=4)),
            "nosvc": d(None, None, "end_session"), "setup": d(True, False)}


@test(key_cases(), quick=700, thorough=10000)
def keys(c, t):
    with World() as w:
        o = OP(w, 0, meta={"backchannel_logout_session_supported": True})
        other = handler({"op": client_conf(o, c["rt"], dynamic=c["dyn"])})
        foreign = other.begin("op")["state"]
        rph = handler({"op": client_conf(o, c["rt"], dynamic=c["dyn"])}, drop=(c["nosvc"],) if c["nosvc"] else ())
        live = cleared = None
        params = {"nonce": "no-nonce"}
        for n in range(c["n"] + 1):
            b = rph.begin("op")
            params = single(query_of(b["url"]))
            lg, resp = o.authorize(b["url"], sub="user-%d" % n, sid="sid-%d" % n)
            if c["done"]:
                out = attempt(rph.finalize, o.issuer, resp)
                check(out.ok and "error" not in out.value, "login: {!r}", out)
            if cleared is None:
                cleared = b["state"]
                rph.clear_session(cleared)
            else:
                live = b["state"]
        client = rph.issuer2rp[o.issuer]
        base = live or cleared
        key = {"never": "never-begun", "empty": "", "cleared": cleared, "foreign": foreign, "nonce": params["nonce"], "sub": lg.sub, "sid": lg.sid, "issuer": o.issuer, "prefix": base[:-1], "case": base.swapcase(), "space": base + " ", "code": lg.code or "code", "number": "0", "client_id": ctx(client).client_id}[c["key"]]
        before = json.dumps(store_dump(client), sort_keys=True, default=str)
        mark = len(w.log)
        eq(rph.state2issuer(key), None, "issuer of a key that isn't one of a session")
        for op in c["ops"]:
            kw = {}
            name = op
            if op.startswith("client:"):
                name, kw = op[7:], {"client": client}
            if name in ("do_provider_info", "do_client_registration", "init_authorization"):
                kw["state"] = key
                args = ()
            elif name == "get_access_and_id_token":
                kw["state"] = key
                args = ()
            else:
                args = (key,)
            out = attempt(getattr(rph, name), *args, **kw)
            check(not out.ok, "{} of {!r} ({}) wasn't refused: {!r}", op, key, c["key"], out)
            check(not isinstance(out.exc, (TypeError, AttributeError)), "{} of {!r} ({}): {!r}", op, key, c["key"], out)
            eq(len(w.log), mark, "requests made by {} of {!r} ({})".format(op, key, c["key"]))
            eq(json.dumps(store_dump(client), sort_keys=True, default=str), before, "records after {} of {!r} ({})".format(op, key, c["key"]))
        if live:
            out = attempt(rph.logout, live)
            if c["nosvc"]:
                from oidcrp.exception import OidcServiceError
                check(not out.ok and isinstance(out.exc, OidcServiceError), "logout without an end session service: {!r}", out)
            else:
                check(out.ok and out.value["url"].startswith(o.ep("end_session_endpoint")), "logout: {!r}", out)
            eq(rph.state2issuer(live), o.issuer, "issuer of a session")
        if c["setup"]:
            n = len(rph.issuer2rp)
            for f in (rph.client_setup, rph.begin):
                out = attempt(f)
                check(not out.ok and isinstance(out.exc, ValueError), "without issuer and user: {!r}", out)
            for f in (rph.do_provider_info, rph.do_client_registration, rph.init_authorization):
                out = attempt(f)
                check(not out.ok and isinstance(out.exc, ValueError), "without client and session key: {!r}", out)
            out = attempt(rph.begin, "https://unconfigured.example.com")
            check(not out.ok, "no configuration for the issuer: {!r}", out)
            eq(len(rph.issuer2rp), n, "clients")
            eq(len(w.log), mark, "requests")
        t.nontriv(True)
