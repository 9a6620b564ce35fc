"""C22: Values that protect a login are fresh and unpredictable."""
import contextlib
import math
import os
import random
import shutil
import tempfile
from urllib.parse import urlsplit

from hypothesis import strategies as st

from clock import Clock
from op import ctx, query_of
from side import Side, jwt_parts, parameters, run
from vt import attempt, check, eq, test

RULE = ("Case = client configuration, seed of the ordinary random generator, and a sequence of logins with token requests, refreshes, userinfo requests and logouts, by handler or by service. Everything is run twice with the same seed, the same clock and the same restored generator state. "
        "All states, nonces, verifiers, logout states, assertion and proof identifiers and file names of both runs have to differ from each other, be long enough for their alphabet, and while they are made enough has to be read from the operating system's source. "
        "Non-trivial: values of at least three kinds were seen.")
ASSUMPTIONS = ["os.urandom, os.getrandom and what the random and secrets modules read from the operating system are the secure sources"]
# bits a value has to be able to hold. Sound values have no digit or no upper case letter now and then, so that the
# bounds for the short ones are below what they'd hold with all characters they are made of
BITS = {"state": 120, "nonce": 110, "verifier": 240, "logout": 120, "jti": 120, "dpop": 120, "file": 45, "seed": 120}


@contextlib.contextmanager
def counting():
    """Counts what's read from the operating system's source"""
    count = [0]
    real, realget, old = os.urandom, getattr(os, "getrandom", None), random._urandom

    def urandom(n):
        count[0] += n
        return real(n)

    def getrandom(n, flags=0):
        count[0] += n
        return realget(n, flags)
    os.urandom = random._urandom = urandom
    if realget:
        os.getrandom = getrandom
    try:
        yield count
    finally:
        os.urandom, random._urandom = real, old
        if realget:
            os.getrandom = realget


@st.composite
def cases(draw):
    p = parameters(draw)
    p.update(dyn=draw(st.booleans()), par=False, claims=False, keys=None)
    steps = []
    for i in range(draw(st.integers(1, 4))):
        steps.append([draw(st.sampled_from(["begin", "begin", "service"])), i])
        for s in draw(st.lists(st.sampled_from(["finish", "refresh", "refresh", "userinfo", "logout", "logout"]), max_size=4)):
            steps.append([s, draw(st.integers(0, 3))])
    return {"p": p, "file": draw(st.booleans()), "length": draw(st.sampled_from([43, 64, 128])), "seed": draw(st.integers(0, 2 ** 32)), "steps": steps}


def collect(c, values, folder, t):
    """Runs the case, adds (kind, value) to values"""
    side = Side(c["p"])
    h = ctx(side.client)
    if c["file"]:
        h.config["local_dir"] = folder
        side.begin_args = {"behaviour_args": {"request_param": "request_uri"}}
    if c["p"]["pkce"]:
        h.add_on["pkce"]["code_challenge_length"] = c["length"]
    with side.w:
        run(side, ["info"])
        run(side, ["register"])
        for s in c["steps"]:
            with counting() as count:
                n, mark = len(values), len(side.w.log)
                if s[0] == "begin":
                    url, state, login = begin(side)
                elif s[0] == "service":
                    url, state, login = service(side)
                    if url is None:
                        continue
                elif not side.logins:
                    continue
                else:
                    url = state = None
                    arg = {"finish": [s[1]], "refresh": [s[1], None, True], "userinfo": [s[1], "ok"], "logout": [s[1]]}[s[0]]
                    out = attempt(run, side, [s[0]] + arg)
                    if s[0] == "logout" and out.ok:
                        values += [("logout", v) for k, v in query_of(out.value) if k == "state"]
                    t.label(s[0] + (":ok" if out.ok else ""))
                read = count[0]
            if state:
                values.append(("state", state))
                if login.nonce:
                    values.append(("nonce", login.nonce))
                if c["p"]["pkce"]:
                    values.append(("verifier", h.state.get_state(state)["pkce"]["code_verifier"] if isinstance(h.state.get_state(state)["pkce"], dict) else verifier(h, state)))
                for k, v in query_of(url):
                    if k == "request_uri":
                        values.append(("file", os.path.basename(urlsplit(v).path)))
                t.label(s[0])
            for r in side.w.log[mark:]:
                if r.path == "/token":
                    f = dict(r.form)
                    if f.get("client_assertion"):
                        values.append(("jti", jwt_parts(f["client_assertion"])[1]["jti"]))
                if r.headers.get("dpop"):
                    values.append(("dpop", jwt_parts(r.headers["dpop"])[1]["jti"]))
            need = sum(BITS[k] for k, _ in values[n:]) // 8
            check(read >= need, "step {}: {} made, only {} bytes read from the operating system's random source", s, values[n:], read)
    return side


def verifier(h, state):
    from oidcmsg.message import Message
    return h.state.get_item(Message, "pkce", state)["code_verifier"]


def begin(side):
    n = len(side.logins)
    if "behaviour_args" in side.begin_args:
        out = side.rph.init_authorization(side.client, **side.begin_args)
        return out["url"], out["state"], login_of(side, out["url"], out["state"])
    r = run(side, ["begin", "u1", None])
    eq(len(side.logins), n + 1, "login")
    return r["url"], side.logins[-1][0], side.logins[-1][1]


def login_of(side, url, state):
    params = dict(query_of(url))
    if "request_uri" in params:
        with open(os.path.join(ctx(side.client).config["local_dir"], os.path.basename(params["request_uri"]))) as f:
            params = dict(jwt_parts(f.read())[1], **params)
    rt = params.get("response_type")
    params["response_type"] = rt if isinstance(rt, str) else " ".join(rt)
    lg, resp = side.op.authorize_params(params, sub="u1", sid=None)
    side.logins.append([state, lg, resp])
    return lg


def service(side):
    """Without the handler: neither state nor nonce are given by anyone else"""
    h = ctx(side.client)
    state = h.state.create_state(h.issuer)
    srv = side.client.client_get("service", "authorization")
    info = srv.get_request_parameters(request_args={"state": state, "redirect_uri": h.redirect_uris[0] if h.redirect_uris else "https://rp.example.com/x", "response_type": side.c["rt"], "scope": ["openid"]})
    params = dict(query_of(info["url"]))
    if "request" in params:
        params = dict(jwt_parts(params["request"])[1], **params)
    side.labels[state] = "s"
    rt = params.get("response_type")
    params["response_type"] = rt if isinstance(rt, str) else " ".join(rt)
    lg, resp = side.op.authorize_params(params, sub="u1", sid=None)
    side.logins.append([state, lg, resp])
    return info["url"], state, lg


def strong(kind, value):
    """Long enough for what it's made of"""
    classes = 0
    for chars in ("0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"):
        if any(ch in chars for ch in value):
            classes += len(chars)
    if all(ch in "0123456789abcdef-" for ch in value):
        classes = 16
    name = value[:-4] if value.endswith(".jwt") else value
    bits = len(name) * math.log2(max(classes, 2))
    check(bits >= BITS[kind], "{} {!r} holds at most {} bits", kind, value, int(bits))
    check(len(set(name)) >= len(name) ** 0.5, "{} {!r} is monotonous", kind, value)


@test(cases(), quick=400, thorough=8000)
def fresh(c, t):
    folder = tempfile.mkdtemp(prefix="c22-", dir="/tmp")
    values = []
    try:
        with Clock():
            random.seed(c["seed"])
            state = random.getstate()
            collect(c, values, folder, t)
            first = len(values)
            random.setstate(state)
        with Clock():
            collect(c, values, folder, t)
    finally:
        shutil.rmtree(folder)
    seen = {}
    for i, (kind, v) in enumerate(values):
        check(v not in seen, "{} {!r} (value {} of {}) is the same as value {}", kind, v, i, first, seen.get(v))
        seen[v] = (i, kind)
        strong(kind, v)
    if len({k for k, _ in values}) >= 3:
        t.nontriv("kinds:%d" % len({k for k, _ in values}))
    for k, _ in values:
        t.label("kind:" + k)


@test(st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "alg": st.sampled_from(["private_key_jwt", "client_secret_jwt"]), "length": st.sampled_from([43, 64, 128]), "file": st.booleans()}), quick=10, thorough=60)
def spread(c, t):
    """Every position of the values takes many different characters"""
    folder = tempfile.mkdtemp(prefix="c22-", dir="/tmp")
    p = {"dyn": False, "rt": "code", "method": c["alg"], "alg": None, "skew": None, "jar": False, "pkce": True, "dpop": True, "par": False, "allow": None, "logout": False, "claims": False, "uimethod": "get", "prefs": False, "keys": None, "scope": ["openid"], "seed": "s"}
    values = []
    try:
        with Clock():
            random.seed(c["seed"])
            collect({"p": p, "file": c["file"], "length": c["length"], "steps": [[k, i] for i in range(60) for k in ("begin", "finish", "logout")]}, values, folder, t)
    finally:
        shutil.rmtree(folder)
    kinds = {}
    for k, v in values:
        kinds.setdefault(k, []).append(v)
    for k, vs in kinds.items():
        eq(len(set(vs)), len(vs), "different values of " + k)
        if len(vs) < 50:
            continue
        n = len(vs[0])
        varying = 0
        for i in range(n):
            at = {v[i] for v in vs if len(v) > i}
            if len(at) >= 8:
                varying += 1
        per = 4 if k in ("dpop",) or all(set(v) <= set("0123456789abcdef-") for v in vs) else 5.9
        check(varying * per >= BITS[k], "only {} of {} positions of {} vary, as in {} and {}", varying, n, k, vs[0], vs[1])
        t.label("spread:" + k)
    if len(kinds) >= 5:
        t.nontriv("kinds:%d" % len(kinds))


@test(st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "how": st.sampled_from(["handler", "context", "configuration", "cookie"])}), quick=60, thorough=500)
def seeds(c, t):
    """The seeds that are made up when none is configured"""
    def make():
        with counting() as count:
            if c["how"] == "handler":
                from oidcrp.rp_handler import RPHandler
                import world as W
                v = RPHandler(base_url="https://rp.example.com", client_configs={}, keyjar=W.keyjar_of("rp")).hash_seed
            elif c["how"] == "context":
                from oidcrp.service_context import ServiceContext
                import world as W
                v = ServiceContext(config={}, keyjar=W.keyjar_of("rp")).hash_seed
            elif c["how"] == "configuration":
                from oidcrp.configure import RPConfiguration
                v = RPConfiguration({"base_url": "https://rp.example.com", "clients": {}}).hash_seed
            else:
                from oidcrp.cookie import CookieDealer

                class Srv:
                    symkey = b"0123456789abcdef" * 2
                    enc_key = b""
                    seed = None
                    cookie_name, cookie_domain, cookie_path = "n", "", ""
                v = None
                for _ in (0,):
                    s = Srv()
                    del Srv.seed
                    CookieDealer(s)
                    v = s.seed
        return v, count[0]
    with Clock():
        random.seed(c["seed"])
        state = random.getstate()
        a, n = make()
        random.setstate(state)
        b, m = make()
    check(a != b, "seed of {} repeats: {!r}", c["how"], a)
    for v, k in ((a, n), (b, m)):
        check(k >= 16 and len(v) >= 16, "seed of {}: {!r}, {} bytes read", c["how"], v, k)
    t.nontriv(c["how"])

