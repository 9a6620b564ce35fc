"""Several providers, one handler, and operations on several logins; what is comparable between two runs."""
import base64
import json
from urllib.parse import parse_qsl, urlencode

from hypothesis import strategies as st

import world as W
from op import OP, PKCE, TENANTS, client_conf, ctx, handler, query_of, response, services, single
from vt import attempt, check

OPS = ["finish", "finish", "redirect", "tokens", "refresh", "refresh", "userinfo", "valid", "active", "logout", "close", "clear", "backchannel", "error", "bad", "begin", "begin"]
STAGES = {"finish": "begun", "redirect": "begun", "error": "begun", "bad": "begun", "tokens": "redirected"}


@st.composite
def cases(draw, cold=False, grow=False, lazy=False):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    n = draw(st.integers(2, 4))
    lines = d(False, True, "writes")
    size = d(1, 3, 10, 40, 150)
    if d(False, True):
        # one is interrupted at some point by another one that's run to its end, maybe twice
        turns, lines = [], d(True, "writes", "writes")
        for _ in range(d(1, 1, 2)):
            a = draw(st.integers(0, n - 1))
            turns += [[a, 10 ** 9]] * d(0, 0, 1, 2, 3, 4, 5) + [[a, draw(st.integers(1, d(20, 60, 200, 600) if lines is True else d(20, 40, 80)))]] + [[draw(st.integers(0, n - 1)), 10 ** 9]] * d(20, 6, 2, 1)
    else:
        turns = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(1, 40).map(lambda x: x * size // 2 + 1)), min_size=3, max_size=40))
    res = {"tenants": draw(st.sampled_from(TENANTS)), "dyn": d(False, True) if not cold else d(True, True, False), "rt": [d("code", "code", "code id_token", "id_token", "id_token token", "code token") for _ in range(3)],
            "method": d("client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"), "alg": d(None, "RS256", "ES256"), "addon": d(None, None, "pkce", "dpop", "par"), "jar": d(None, None, "value"),
            "ops": [[d(*OPS) if not cold else "begin", d(0, 0, 0, 1, 1, 2), d("u%d" % i, "u%d" % i, "u0")] for i in range(n)], "warm": d(True, True, False) if not cold else False, "by": d("key", "key", "issuer", "user"), "lines": lines, "turns": [list(x) for x in turns], "more": draw(st.integers(0, 1))}
    if lazy:
        # what is done when something is used for the first time
        fresh = d(True, True, False)
        res["ops"] = [[d("finish", "finish", "tokens") if fresh else d("finish", "tokens", "userinfo", "refresh"), 0, "u%d" % i] for i in range(n)]
        res["addon"] = d("dpop", "dpop", res["addon"])
        if fresh:
            res["rt"][0] = d("code", "code", "code id_token")
    if grow:
        # a provider is added while others are used
        res["ops"] = [[d(*[x for x in OPS if x != "begin"]), i, "u%d" % i] for i in (0, 1)] + [["begin", 2, "u2"]]
        res["warm"] = False
        if lines:
            res["turns"] = [[draw(st.integers(0, 1)), draw(st.integers(1, 40))]] + [[2, 10 ** 9]] * 30
    return res


class Setup:
    """Providers, handler and logins; used twice, overlapping and one after the other"""

    def __init__(self, c, w):
        self.c, self.w = c, w
        meta = {"backchannel_logout_supported": True, "backchannel_logout_session_supported": True, "request_parameter_supported": True, "request_uri_parameter_supported": True, "request_object_signing_alg_values_supported": ["RS256"]}
        self.ops, confs = [], {}
        for i in range(3):
            o = ConcOP(w, i, alg=c["alg"] or "RS256", tenant=(c["tenants"] + [""])[i], meta=dict(meta, **({"dpop_signing_alg_values_supported": ["ES256"]} if c["addon"] == "dpop" else {})))
            if c["addon"] == "par":
                o.meta["pushed_authorization_request_endpoint"] = o.base + "/par"
            o.refresh_idt = bool(c["more"])
            self.ops.append(o)
            conf = client_conf(o, c["rt"][i], dynamic=c["dyn"])
            b = conf["client_preferences" if c["dyn"] else "behaviour"]
            b["token_endpoint_auth_method"] = c["method"]
            if c["alg"]:
                b["id_token_signed_response_alg"] = c["alg"]
            if c["jar"] and c["addon"] != "par":
                b["request_object_signing_alg"] = "RS256"
            if c["addon"] == "pkce":
                conf["add_ons"] = json.loads(json.dumps(PKCE))
            elif c["addon"] == "dpop":
                conf["add_ons"] = {"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}}
            elif c["addon"] == "par":
                conf["add_ons"] = {"par": {"function": "oidcrp.oauth2.add_on.pushed_authorization.add_support", "kwargs": {"body_format": "urlencoded", "merge_rule": "lax"}}}
            confs["op%d" % i if c["by"] == "key" else o.issuer] = conf
        srv = services()
        if c["jar"] and c["addon"] != "par":
            srv["authorization"].setdefault("kwargs", {}).setdefault("conf", {})["request_object_signing_alg"] = "RS256"
        if c["by"] == "user":
            # found with the help of the user's identifier, perhaps not configured at all
            generic = client_conf(self.ops[0], c["rt"][0], dynamic=True)
            generic["client_preferences"].update({k: v for k, v in b.items() if k in ("token_endpoint_auth_method", "id_token_signed_response_alg", "request_object_signing_alg")})
            generic.update({"add_ons": conf["add_ons"]} if "add_ons" in conf else {})
            del generic["issuer"]
            if c["dyn"]:
                confs.pop(self.ops[1].issuer)
                confs.pop(self.ops[2].issuer)
            confs[""] = generic
        w.serve("users.example.org", self.webfinger)
        self.rph = handler(confs, services=srv)
        self.logins = []      # {state, op, lg, resp, stage}

    def webfinger(self, req):
        res = single(query_of(req.url))["resource"]
        return response(200, {"subject": res, "links": [{"rel": "http://openid.net/specs/connect/1.0/issuer", "href": self.ops[int(res[-len("0@users.example.org")])].issuer}]}, "application/jrd+json")

    def begin(self, i, key, sub):
        """Returns what the application gets"""
        c = self.c
        if c["by"] == "user" and not c["warm"]:
            out = self.rph.begin(user_id="acct:x{}@users.example.org".format(i))
        else:
            out = self.rph.begin("op%d" % i if c["by"] == "key" else self.ops[i].issuer)
        return out

    def begun(self, i, out, sub):
        o = self.ops[i]
        q = single(query_of(out["url"]))
        if "request_uri" in q and q["request_uri"] in o.pushed:
            q = dict(single(parse_qsl(o.pushed[q["request_uri"]])))
        elif "request" in q:
            p = q["request"].split(".")[1]
            q = dict(q, **{k: v for k, v in json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4))).items()})
        o.next = len(self.logins)
        lg, resp = o.authorize_params(q, sub=sub, sid="sid-%d" % len(self.logins))
        l = {"state": out["state"], "op": o, "lg": lg, "resp": resp, "stage": "begun", "n": len(self.logins), "url": out["url"], "client": self.rph.issuer2rp.get(o.issuer)}
        self.logins.append(l)
        return l

    def redirect(self, l):
        r = self.rph.finalize_auth(self.rph.issuer2rp[l["op"].issuer], l["op"].issuer, dict(l["resp"]))
        l["stage"] = "redirected"
        return r

    def prepare(self):
        for i, (kind, p, sub) in enumerate(self.c["ops"]):
            if kind == "begin":
                if self.c["warm"]:
                    self.begun(p, self.begin(p, None, "x"), "warm%d" % i)
                continue
            l = self.begun(p, self.begin(p, None, sub), sub)
            l["doing"] = i
            stage = STAGES.get(kind, "done")
            if stage == "redirected":
                self.redirect(l)
            elif stage == "done":
                out = self.rph.finalize(l["op"].issuer, dict(l["resp"]))
                check("error" not in out, "login fails: {}", out)
                l["stage"] = "done"

    def op(self, i):
        """Something that can be run later"""
        kind, p, sub = self.c["ops"][i]
        rph = self.rph
        if kind == "begin":
            return lambda: self.begin(p, None, sub)
        l = [x for x in self.logins if x.get("doing") == i][0]
        state, o = l["state"], l["op"]
        client = rph.issuer2rp[o.issuer]
        if kind == "finish":
            return lambda: rph.finalize(o.issuer, dict(l["resp"]))
        if kind == "redirect":
            return lambda: rph.finalize_auth(client, o.issuer, dict(l["resp"]))
        if kind == "error":
            return lambda: rph.finalize(o.issuer, {"error": "access_denied", "state": state})
        if kind == "bad":
            resp = dict(l["resp"])
            if "id_token" in resp:
                resp["id_token"] = W.sign(dict(l["lg"].id_tokens[-1][1], nonce="other"), o.alg, owner=o.owner, secret=o.secret)
            else:
                resp["iss"] = "https://evil.example.org"
            return lambda: rph.finalize(o.issuer, resp)
        if kind == "tokens":
            return lambda: rph.get_tokens(state)
        if kind == "refresh":
            return lambda: rph.refresh_access_token(state)
        if kind == "userinfo":
            return lambda: rph.get_user_info(state)
        if kind == "valid":
            return lambda: rph.get_valid_access_token(state)
        if kind == "active":
            return lambda: rph.has_active_authentication(state)
        if kind == "logout":
            return lambda: rph.logout(state)
        if kind == "close":
            return lambda: rph.close(state)
        if kind == "clear":
            return lambda: rph.clear_session(state)
        if kind == "backchannel":
            from oidcrp.rp_handler import backchannel_logout
            claims = {"iss": o.issuer, "aud": [ctx(client).client_id], "iat": 1700000000, "jti": "jti-%d" % i, "events": {"http://schemas.openid.net/event/backchannel-logout": {}}, "sid": l["lg"].sid}
            tok = W.sign(claims, o.alg, owner=o.owner, secret=o.secret)
            return lambda: backchannel_logout(client, request=urlencode({"logout_token": tok}))

    # -- what is compared -------------------------------------------------------
    def labels(self):
        res = {}
        for l in self.logins:
            n, lg = l["n"], l["lg"]
            res[l["state"]] = "<state %d>" % n
            if lg.nonce:
                res[lg.nonce] = "<nonce %d>" % n
        for o in self.ops:
            for cid, sec in o.clients.items():
                res[cid], res[sec] = "<client %d>" % o.i, "<secret %d>" % o.i
        return res

    def norm(self, x, lb, key=None):
        if hasattr(x, "to_dict"):
            x = x.to_dict()
        if isinstance(x, dict):
            return {self.norm(k, lb) if isinstance(k, str) else k: self.norm(v, lb, k) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.norm(v, lb) for v in x]
        if isinstance(x, str):
            if key == "request_uri":
                return "<uri>"
            if key in ("jti", "code_verifier", "code_challenge", "jwk"):
                return "<%s>" % key
            parts = x.split(".")
            if len(parts) == 3 and x.startswith("ey"):
                try:
                    hdr, body = [json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4))) for p in parts[:2]]
                except ValueError:
                    return x
                if "jwk" in hdr:
                    hdr = {"typ": hdr.get("typ"), "alg": hdr.get("alg")}
                return {"hdr": self.norm(hdr, lb), "body": self.norm(body, lb)}
            if x[:1] in "{[":
                try:
                    return self.norm(json.loads(x), lb)
                except ValueError:
                    pass
            if x.startswith(("https://", "http://")) and "?" in x:
                return {"base": x.split("?")[0], "query": [[k, self.norm(v, lb, k)] for k, v in sorted(query_of(x))]}
            for v, name in lb.items():
                if v in x:
                    x = x.replace(v, name)
            return x
        return x

    def request(self, r, lb):
        h = {k.lower(): v for k, v in r.headers.items() if k.lower() in ("authorization", "content-type", "dpop")}
        body = r.body
        if "authorization" in h and h["authorization"].startswith("Basic "):
            h["authorization"] = base64.b64decode(h["authorization"][6:]).decode()
        if "urlencoded" in h.get("content-type", ""):
            body = [[k, self.norm(v, lb, k)] for k, v in sorted(r.form)]
        return {"method": r.method, "url": self.norm(r.url, lb), "headers": self.norm(h, lb), "body": self.norm(body, lb)}

    def session(self, l, lb):
        rph = self.rph
        client = rph.issuer2rp[l["op"].issuer]
        s = ctx(client).state
        st_ = l["state"]
        rec = s._db.get(st_) if isinstance(s._db, dict) else attempt(s.get_state, st_).value
        res = {"stored": self.norm(rec, lb)}
        for what, f, arg in (("nonce", s.get_state_by_nonce, l["lg"].nonce), ("sid", s.get_state_by_sid, l["lg"].sid), ("iss", s.get_iss, st_)):
            o = attempt(f, arg)
            res[what] = self.norm(o.value, lb) if o.ok else type(o.exc).__name__
        return res


class ConcOP(OP):
    """A provider that numbers what it issues per login, so that the order of requests doesn't show"""

    def __init__(self, *a, **kw):
        self.next = 0
        self.pushed = {}
        OP.__init__(self, *a, **kw)
        self.par_hook = self.do_par
        self.reg_hook = self.do_register

    def authorize_params(self, params, sub="u1", sid=None, **over):
        rt = params.get("response_type")
        params["response_type"] = rt if isinstance(rt, str) else " ".join(rt)
        self.counter = self.next * 1000
        return OP.authorize_params(self, params, sub, sid, **over)

    def do_register(self, req):
        self.regs = getattr(self, "regs", 0) + 1
        keep = self.counter
        self.counter = self.regs
        r = OP.register(self, req)
        self.counter = keep
        return r

    def do_par(self, req):
        self.pars = getattr(self, "pars", 0) + 1
        uri = "urn:par:%d" % self.pars
        self.pushed[uri] = req.body
        return response(201, {"request_uri": uri, "expires_in": 60})

    def new_at(self, lg):
        self.counter = 1000 * int(lg.n.split(".")[1]) + 10 * len(lg.ats)
        return OP.new_at(self, lg)

    def new_rt(self, lg):
        self.counter = 1000 * int(lg.n.split(".")[1]) + 10 * len(lg.rts) + 5
        return OP.new_rt(self, lg)
