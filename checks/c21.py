"""C21: Configuration is input only and clients are independent."""
import copy
import sys
import types

from hypothesis import strategies as st

import world as W
from clock import Clock
from op import World, ctx, handler
from side import Side, history, make_conf, make_op, norm, parameters, requests_of, run, same, step, tables
from vt import attempt, check, eq, test

RULE = ("Case = one to three clients (in one or several handlers; same or different issuer; sharing preferences, behaviour, add-on, service or other configuration objects or one common configuration) with interleaved histories of discovery, registration, logins, refreshes, logouts. "
        "(1) Every object the caller supplied and every container in the modules and classes of oidcrp and oidcmsg is compared with a copy taken before. (2) The first client's requests, results, decisions and state are compared with those of a run where it is alone. "
        "Non-trivial: at least two clients are used, or a request with caller supplied arguments is made.")
ASSUMPTIONS = ["clients in one handler have different issuers", "providers of different clients are independent of each other"]

METAS = [{}, {"id_token_signing_alg_values_supported": ["RS256", "ES256"], "token_endpoint_auth_methods_supported": ["client_secret_post"], "response_types_supported": ["code", "id_token"]},
         {"scopes_supported": ["openid"], "request_parameter_supported": False, "backchannel_logout_supported": False, "userinfo_signing_alg_values_supported": ["RS256"], "grant_types_supported": ["authorization_code"]},
         {"token_endpoint_auth_signing_alg_values_supported": ["HS512", "ES256"], "request_object_signing_alg_values_supported": ["none"], "dpop_signing_alg_values_supported": ["ES256"], "subject_types_supported": ["pairwise"]}]
SHARED = ["behaviour", "client_preferences", "add_ons", "allow", "request_args", "post_logout_redirect_uris", "httpc_params", "verify_args", "contacts"]

# what a caller may supply; a case uses its own copy
REQ_ARGS = [None, {}, {"claims": {"id_token": {"email": {"essential": True}}, "userinfo": {"sub": {"value": "u1"}}}, "ui_locales": ["sv", "en"]}, {"scope": ["openid", "profile"], "prompt": ["login"], "acr_values": ["1", "2"], "max_age": 10},
            {"response_type": "code", "login_hint": "x", "extra": {"a": [1, {"b": 2}]}}, {"redirect_uri": "https://rp.example.com/other", "display": "page"}]
BEHAVIOUR_ARGS = [None, {}, {"request_param": "request"}, {"client_name": "x", "contacts": ["a@example.com"], "default_max_age": 5}, {"application_type": "native"}]
REG_ARGS = [None, {"contacts": ["x@example.com"], "client_name": "Y", "response_types": ["code"]}, {"request_uris": ["https://rp.example.com/r"], "jwks_uri": "https://rp.example.com/j", "jwks": {"keys": []}}]


@st.composite
def cases(draw):
    base = parameters(draw)
    n = draw(st.sampled_from([1, 2, 2, 2, 3]))
    mode = draw(st.sampled_from(["own", "shared", "shared", "common"]))
    params = [base]
    for i in range(1, n):
        params.append(parameters(draw) if mode == "own" else dict(base))
    together = draw(st.booleans()) or mode == "common"
    if together or mode != "own":
        for p in params:
            p["seed"] = base["seed"]
    if mode == "common":
        for p in params:
            p["dyn"] = True
    hist = [history(draw, size=6) for _ in range(n)]
    for h in hist[1:]:
        if draw(st.booleans()):
            del h[draw(st.integers(3, max(3, len(h) - 1))):]
        elif draw(st.integers(0, 2)) == 0:
            h += [["finish", 0], ["wait", 3700], ["begin", "u2", None], ["finish", 1]]
    todo = []
    order = draw(st.permutations([i for i, h in enumerate(hist) for _ in h])) if draw(st.booleans()) else None
    if order is None:
        # the others first, or the first client's middle part after the others
        cut = draw(st.integers(0, len(hist[0])))
        order = [0] * cut + [i for i, h in enumerate(hist[1:], 1) for _ in h] + [0] * (len(hist[0]) - cut)
    pos = [0] * n
    for i in order:
        todo.append([i] + hist[i][pos[i]])
        pos[i] += 1
    return {"n": n, "mode": mode, "params": params, "meta": [draw(st.sampled_from([0, 0, 0, 1, 2, 3])) for _ in range(n)], "together": together, "same_iss": draw(st.booleans()) and not together, "insrv": draw(st.booleans()),
            "share": [draw(st.booleans()) for _ in range(n)], "extra": draw(st.sampled_from([[], ["request_args"], ["contacts", "verify_args"], ["httpc_params", "request_args"], ["default_services"], ["method_args"], ["method_args", "contacts"]])),
            "req": draw(st.integers(0, len(REQ_ARGS) - 1)), "beh": draw(st.integers(0, len(BEHAVIOUR_ARGS) - 1)), "reg": draw(st.integers(0, len(REG_ARGS) - 1)), "todo": todo}


# -- snapshots ------------------------------------------------------------------

SIMPLE = (str, int, float, bool, bytes, type(None))


def freeze(x, depth=0):
    if isinstance(x, SIMPLE):
        return x
    if isinstance(x, dict):
        return ["dict"] + [(freeze(k), freeze(v, depth + 1)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(map(repr, x))
    if isinstance(x, type):
        return "class " + x.__module__ + "." + x.__qualname__
    if hasattr(x, "to_dict") and hasattr(x, "c_param"):
        return [type(x).__name__, freeze(x.to_dict())]
    if callable(x):
        return "callable " + getattr(x, "__qualname__", type(x).__name__)
    return "object " + type(x).__name__


NOT = {"__builtins__", "logger", "LOGGER", "__annotations__", "__doc__", "__abstractmethods__", "_abc_impl", "__dict__", "__weakref__", "__annotate_func__", "__static_attributes__", "__firstlineno__", "__annotations_cache__"}


def containers():
    """All containers and simple values that belong to modules and classes"""
    res = {}
    for name in sorted(sys.modules):
        if name.split(".")[0] == "oidcrp" or name in ("oidcmsg.oidc", "oidcmsg.oauth2", "oidcmsg.message", "oidcmsg.oidc.session", "oidcmsg.oidc.backchannel_authentication", "oidcmsg.context", "oidcmsg.impexp"):
            mod = sys.modules[name]
            for k, v in vars(mod).items():
                if k in NOT or k.startswith("__") or isinstance(v, (types.ModuleType, types.FunctionType)):
                    continue
                if isinstance(v, type):
                    if v.__module__ == name:
                        for a, b in vars(v).items():
                            if a not in NOT and not a.startswith("__") and isinstance(b, SIMPLE + (dict, list, set, tuple, type)):
                                res[name, k, a] = freeze(b)
                elif isinstance(v, SIMPLE + (dict, list, set, tuple)):
                    res[name, k] = freeze(v)
    return res


def load_all():
    import importlib
    import pkgutil

    import oidcrp
    for m in pkgutil.walk_packages(oidcrp.__path__, "oidcrp."):
        importlib.import_module(m.name)


def jwks_hook(op, i):
    """Key documents with a modification date"""
    when = ["Mon, 05 Jan 2015 00:00:00 GMT", "Tue, 06 Jan 2015 00:00:00 GMT", "Wed, 07 Jan 2015 00:00:00 GMT"][i]

    def hook(req):
        if (req.headers.get("If-Modified-Since") or "").split(",")[-1] >= when.split(",")[-1]:
            return W.response(304, "")
        return W.response(200, W.public_jwks(*[op.owner + "_" + k for k in ("rsa", "ec256", "ec384", "rsaenc", "ecenc")]), headers={"Last-Modified": when})
    return hook


# -- the system under test ----------------------------------------------------

class Setup:
    def __init__(self, c, only=None):
        self.c = c
        self.given = {}        # what the caller supplied
        self.sides = {}
        self.req, self.beh, self.reg = copy.deepcopy(REQ_ARGS[c["req"]]), copy.deepcopy(BEHAVIOUR_ARGS[c["beh"]]), copy.deepcopy(REG_ARGS[c["reg"]])
        self.given.update(req_args=self.req, behaviour_args=self.beh, reg_args=self.reg)
        actors = range(c["n"]) if only is None else [only]
        worlds, ops, confs, srvs = {}, {}, {}, {}
        first = srv1 = None
        for i in actors:
            w = worlds[i] = World()
            p = c["params"][i]
            ops[i] = make_op(p, w, 0 if c["same_iss"] else i, **METAS[c["meta"][i]])
            ops[i].jwks_hook = jwks_hook(ops[i], i)
            conf, srv = make_conf(p, ops[i])
            if "contacts" in c["extra"]:
                conf["contacts"], conf["verify_args"] = ["c@example.com"], {"allow_sign_alg_none": False}
            if "request_args" in c["extra"]:
                conf["request_args"] = {"claims": {"userinfo": {"email": None}}, "acr_values": ["7"]}
            if "httpc_params" in c["extra"]:
                conf["httpc_params"] = {"verify": False, "headers": {"x-b": "c"}}
            if "method_args" in c["extra"]:
                for n, d in srv.items():
                    if n in ("authorization", "accesstoken", "userinfo", "registration", "end_session", "refresh_accesstoken"):
                        cf = d.setdefault("kwargs", {}).setdefault("conf", {})
                        cf["pre_construct"], cf["post_construct"] = {"foo": "bar"}, {"some": ["thing"]}
            if c["mode"] == "shared" and first is not None:
                for k in SHARED:
                    if k in first and k in conf:
                        conf[k] = first[k]
                if c["share"][i]:
                    srv = srv1
            elif c["mode"] == "common":
                if first is None:
                    del conf["issuer"]
                else:
                    conf, srv = first, srv1
            if first is None:
                first, srv1 = conf, srv
            confs[i], srvs[i] = conf, srv
        kj = {}
        rphs = {}
        for i in actors:
            key = ops[i].issuer if c["mode"] == "common" else "op"
            if c["together"]:
                if not rphs:
                    if c["mode"] == "common":
                        allc = {"": confs[i]}
                    else:
                        allc = {}
                        for j in actors:
                            if j != i and c["insrv"]:
                                confs[j]["services"] = srvs[j]
                            allc["op%d" % j] = confs[j]
                    rph = self.make(allc, srvs[i], c["params"][i]["seed"], kj)
                    self.given["confs"] = allc
                    rphs = {j: rph for j in actors}
                key = ops[i].issuer if c["mode"] == "common" else "op%d" % i
            else:
                key = "op%d" % i
                rphs[i] = self.make({key: confs[i]}, srvs[i], c["params"][i]["seed"], kj)
                self.given["conf%d" % i] = rphs[i].client_configs
            self.given["services%d" % i] = srvs[i]
            self.sides[i] = (worlds[i], ops[i], rphs[i], key)
        self.before = {k: freeze(v) for k, v in self.given.items()}
        self.kj_before = {k: freeze(v.export_jwks(True)) for k, v in kj.items()}
        self.kj = kj
        for i in list(self.sides):
            w, op, rph, key = self.sides[i]
            self.sides[i] = Side(c["params"][i], w, op, rph, key)
            self.sides[i].given = self

    def make(self, confs, srv, seed, kj):
        jar = W.keyjar_of("rp")
        jar.import_jwks({"keys": [W.key("rp_rsa").serialize(private=True), W.key("rp_ec256").serialize(private=True)]}, "https://rp.example.com")
        kj[len(kj)] = jar
        if "contacts" in self.c["extra"] or "httpc_params" in self.c["extra"]:
            jar.httpc_params = None
        kw = {}
        if "default_services" in self.c["extra"]:
            kw["services"] = None
        else:
            kw["services"] = srv
        httpc = {"verify": False, "headers": {"X-a": "b"}}
        self.given["httpc%d" % len(kj)] = httpc
        return handler(confs, hash_seed=seed, keyjar=jar, httpc_params=httpc, **kw)

    def unchanged(self, what):
        for k, v in self.given.items():
            eq(freeze(v), self.before[k], "{} after {}".format(k, what))
        for k, v in self.kj.items():
            eq(freeze(v.export_jwks(True)), self.kj_before[k], "keys of the handler after {}".format(what))


def do(side, s):
    """run() with arguments supplied by the caller"""
    g = side.given
    if s[0] == "begin":
        side.begin_args = {"req_args": g.req, "behaviour_args": g.beh}
    elif s[0] == "register" or s[0] == "info":
        side.register_args = {"request_args": g.reg, "behaviour_args": g.beh}
    return run(side, s)


def trace(c, only, t, watch):
    """Runs the case. Returns what was seen of the first client"""
    res = []
    with Clock() as clock:
        setup = Setup(c, only)
        for i, s in enumerate(c["todo"]):
            a, s = s[0], s[1:]
            if s[0] == "wait":
                clock.advance(s[1])
                continue
            if only is not None and a != only:
                continue
            side = setup.sides[a]
            with side.w:
                out = attempt(do, side, s)
            if watch:
                setup.unchanged("step {} {} ({!r})".format(i, s, out))
                if s[0] in ("begin", "register") and out.ok:
                    t.label("used:" + s[0])
            if a == 0:
                r = {"value": norm(side, out.value)} if out.ok else {"exc": type(out.exc).__name__}
                r["requests"] = requests_of(side)
                res.append((i, s, out, r, tables(side)))
    return res


@test(cases(), quick=900, thorough=15000)
def inputs(c, t):
    load_all()
    before = containers()
    trace(c, None, t, True)
    after = containers()
    for k in before:
        eq(after.get(k), before[k], "process wide {}".format(".".join(k)))
    check(set(after) == set(before), "process wide containers {}", [k for k in set(after) ^ set(before)])
    if c["n"] > 1 or c["req"] > 1:
        t.nontriv("mode:%s:%d" % (c["mode"], c["n"]))


@test(cases().filter(lambda c: c["n"] > 1), quick=900, thorough=15000)
def independent(c, t):
    alone = trace(c, 0, t, False)
    others = trace(c, None, t, False)
    eq(len(others), len(alone), "steps")
    others_used = 0
    for (i, s, out, r, tab), (_, _, out2, r2, tab2) in zip(alone, others):
        same(r2, r, "step {} {}: with other clients around ({!r} / {!r})".format(i, s, out2, out))
        same(tab2, tab, "step {} {}: state with other clients around".format(i, s))
        t.label("step:" + s[0] + (":ok" if out.ok else ":" + type(out.exc).__name__))
    if any(x[0] for x in c["todo"]):
        others_used = 1
    if others_used and any(o[2].ok for o in alone):
        t.nontriv("mode:%s:%d%s" % (c["mode"], c["n"], ":together" if c["together"] else ""))
