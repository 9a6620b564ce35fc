"""C12: The authorization URL is a faithful request to the provider's endpoint."""
import copy
import json

from hypothesis import strategies as st
from oidcmsg.oauth2 import AuthorizationRequest as OauthRequest
from oidcmsg.oidc import AuthorizationRequest

import op as O
from op import OP, RT, World, client_conf, ctx, handler, query_of, services, single
from vt import check, eq, test

RULE = ("Case = client (OpenID Connect or plain OAuth2; static redirect URIs, configured callbacks or dynamically registered), configured request arguments at client and service level, registered values, "
        "endpoint with its own query, and several requests in a row with caller arguments. The URL is parsed with urllib and compared with a merge computed from the inputs and with the session's record. "
        "Non-trivial: at least one parameter from caller, configuration or endpoint beyond the defaults.")
ASSUMPTIONS = ["the endpoint's own query does not repeat parameters of the request"]

VAL = st.text(alphabet=st.one_of(st.sampled_from("abcXYZ019-_.~:%+/=&?;@ #\"'\\<>{}"), st.sampled_from("åβ€😀\n")), min_size=1, max_size=12)
LOC = st.lists(st.sampled_from(["en", "sv", "fr-CA", "ja-Kana-JP"]), min_size=1, max_size=3, unique=True)
COMMON = {
    "login_hint": VAL, "display": st.sampled_from(["page", "popup", "touch"]), "prompt": st.sampled_from([["login"], ["login", "consent"], "none", ["select_account"], "login consent"]),
    "max_age": st.integers(0, 10000), "acr_values": st.lists(st.sampled_from(["1", "urn:x", "loa2"]), min_size=1, max_size=3, unique=True), "ui_locales": LOC, "claims_locales": LOC, "id_token_hint": VAL,
    "claims": st.sampled_from([{"id_token": {"acr": None}}, {"userinfo": {"email": {"essential": True}}}, {"userinfo": {"a": {"value": "x&y=z"}}, "id_token": {"acr": {"values": ["1", "2"]}}}]),
    "response_mode": st.sampled_from(["query", "fragment", "form_post"])}
SCOPE = st.sampled_from([["openid"], ["openid", "email"], ["email"], ["profile", "openid", "offline_access"], "openid profile", "email", ["offline_access"], "address phone"])
FORMS = {"code": ["code", ["code"]], "id_token": ["id_token", ["id_token"]]}
for _rt in RT:
    FORMS.setdefault(_rt, [_rt, _rt.split(" "), " ".join(reversed(_rt.split(" ")))])
RTF = st.sampled_from(RT).flatmap(lambda r: st.sampled_from(FORMS[r]))

CALLER = st.fixed_dictionaries({}, optional=dict(COMMON, scope=SCOPE, response_type=RTF, x_extra=VAL, nonce=st.text(alphabet="abcdef0123456789-_", min_size=8, max_size=20),
                                                 state=st.just("callers-own-state"), redirect_uri=st.sampled_from(["https://rp.example.com/own?x=1", "com.example.app:/cb"])))
CONF = st.fixed_dictionaries({}, optional=dict(COMMON, scope=SCOPE, response_type=RTF, x_conf=VAL))
SVC = st.fixed_dictionaries({}, optional={k: v for k, v in COMMON.items() if k != "response_mode"})
QNAME = st.sampled_from(["tenant", "p", "a b", "flow", "ü", "x&y"])
EQ = st.lists(st.tuples(QNAME, st.one_of(VAL, st.just(""))), max_size=3)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["oidc", "oidc", "oidc", "oauth2"]))
    return {"kind": kind, "level": draw(st.sampled_from(["handler", "handler", "service"])) if kind == "oidc" else "service",
            "uris": draw(st.sampled_from(["static", "static2", "callbacks", "dynamic"])),
            "rts": draw(st.lists(st.sampled_from(RT), min_size=1, max_size=3, unique=True)), "scope": draw(st.one_of(st.none(), SCOPE.filter(lambda s: isinstance(s, list)))),
            "conf": draw(st.one_of(st.just({}), CONF)), "svc": draw(st.one_of(st.just({}), SVC)), "beh": draw(st.one_of(st.just({}), SVC)), "eq": draw(EQ),
            "path": draw(st.sampled_from(["/authorize", "/a/b/auth", "/oauth2/v2.0/authorize;x=1"])), "port": draw(st.sampled_from(["", ":8443"])),
            "reqs": draw(st.lists(CALLER, min_size=1, max_size=3)), "pkce": draw(st.booleans())}


def norm(name, v):
    if name in ("claims",) and isinstance(v, str):
        return json.loads(v)
    if hasattr(v, "to_dict"):
        v = v.to_dict()
    if isinstance(v, list):
        return " ".join(str(x) for x in v)
    return v if isinstance(v, dict) else str(v)


def words(v):
    return v.split() if isinstance(v, str) else list(v)


@test(cases(), quick=7000, thorough=90000)
def urls(case, t):
    with World() as w:
        run(case, t, w)


def run(case, t, w):
    from urllib.parse import urlencode
    op = OP(w, 0)
    equery = urlencode(case["eq"])
    base = "https://login.example.org" + case["port"] + case["path"]
    endpoint = base + ("?" + equery if equery else "")
    op.meta = {"authorization_endpoint": endpoint}
    oidc = case["kind"] == "oidc"
    srv = services()
    if not oidc:
        srv = {"discovery": {"class": "oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery"}, "authorization": {"class": "oidcrp.oauth2.authorization.Authorization"},
               "access_token": {"class": "oidcrp.oauth2.access_token.AccessToken"}}
    if case["svc"]:
        srv["authorization"]["kwargs"] = {"conf": {"request_args": copy.deepcopy(case["svc"])}}
    dyn = case["uris"] == "dynamic" and oidc
    conf = client_conf(op, case["rts"], dynamic=dyn, client_id=None if dyn else "client & Co/1")
    pref = conf["client_preferences" if dyn else "behaviour"]
    if case["scope"] is None:
        del pref["scope"]
    else:
        pref["scope"] = list(case["scope"])
    conf.setdefault("behaviour", {}).update(copy.deepcopy(case["beh"]))
    cbs = None
    if dyn:
        pref["form_post_usable"] = True
    elif case["uris"] == "callbacks":
        cbs = {"code": "https://rp.example.com/c", "implicit": "https://rp.example.com/i?z=1", "form_post": "https://rp.example.com/f"}
        conf["callback"] = dict(cbs)
        del conf["redirect_uris"]
    elif case["uris"] == "static2":
        conf["redirect_uris"] = ["https://rp.example.com/one?a=b&c=d", "https://rp.example.com/two"]
    if case["conf"]:
        conf["request_args"] = copy.deepcopy(case["conf"])
    if case["pkce"]:
        conf["add_ons"] = copy.deepcopy(O.PKCE)
    kw = {}
    if not oidc:
        from oidcrp.oauth2 import Client
        kw["client_cls"] = Client
    rh = handler({op.issuer: conf}, services=srv, **kw)
    cl = rh.client_setup(op.issuer)
    c = ctx(cl)
    if dyn:
        cbs = {k: c.callback.get(k) for k in ("code", "implicit", "form_post")}
        reg = json.loads(w.since(0, op.netloc, "/register")[0].body)
        check(set(v for v in cbs.values() if v) == set(reg["redirect_uris"]), "registered {} but has {}", reg["redirect_uris"], cbs)
    at_handler = case["level"] == "handler"
    states = set()
    for n, args in enumerate(case["reqs"]):
        args = copy.deepcopy(args)
        if not oidc:       # plain OAuth2 knows nothing of these, they are text
            args = {k: v if k in ("scope", "response_type") else json.dumps(v) if isinstance(v, dict) else norm("", v) for k, v in args.items()}
        configured = case["conf"] if at_handler else {}
        # what is requested
        want = dict(case["beh"])
        want.update(case["svc"])
        # the handler's arguments go before the service's, the caller's before all
        if case["scope"] is not None and oidc:
            want["scope"] = case["scope"]
        want.update(configured)
        want.update(args)
        for k in ("redirect_uri", "state"):
            want.pop(k, None)
        want.setdefault("response_type", case["rts"][0])
        if oidc:
            want.setdefault("scope", ["openid"])
        rt = words(want["response_type"])
        mode = args.get("response_mode", configured.get("response_mode"))
        if "redirect_uri" in args:
            redirect = args["redirect_uri"]
        elif cbs is None:
            redirect = conf["redirect_uris"][0]
        elif mode == "form_post":
            redirect = cbs["form_post"]
        else:
            redirect = cbs["code" if rt == ["code"] else "implicit"]
        if redirect is None:
            t.label("response type without registered callback")
            continue
        given = copy.deepcopy(args)
        if oidc and "claims" in given and n % 2:
            from oidcmsg.oidc import Claims
            given["claims"] = Claims(**given["claims"])
        if at_handler:
            r = rh.begin(op.issuer, req_args=given) if given or n % 2 else rh.begin(op.issuer)
            state, url = r["state"], r["url"]
        else:
            given.pop("state", None)
            if not oidc:
                given.setdefault("response_type", want["response_type"])
            state = c.state.create_state(op.issuer)
            if n % 2 or not oidc:
                given["state"] = state
            kws = {} if n % 2 else {"state": state}
            if not oidc:
                kws = {"state": state}
            url = cl.client_get("service", "authorization").get_request_parameters(request_args=given, **kws)["url"]
        check(state not in states, "state used twice")
        states.add(state)
        eq(url.split("?")[0], base, "endpoint")
        check("#" not in url, "fragment in the URL {}", url)
        pairs = query_of(url)
        # the endpoint's own parameters
        names = set(k for k, _ in case["eq"])
        own = [(k, v) for k, v in pairs if k in names]
        eq(sorted(own), sorted(tuple(x) for x in case["eq"]), "parameters of the endpoint URL")
        rest = [(k, v) for k, v in pairs if k not in names]
        eq(len(rest), len(set(k for k, _ in rest)), "number of distinct parameters in {}".format(rest))
        got = dict(rest)
        eq(got.get("state"), state, "state")
        eq(got.get("client_id"), c.client_id, "client id")
        check(c.client_id, "no client id")
        eq(got.get("redirect_uri"), redirect, "redirect URI")
        eq(words(got.get("response_type", "")), rt, "response type")
        scope = words(got.get("scope", ""))
        if oidc:
            check("openid" in scope, "openid not in scope {}", scope)
            eq(set(scope), set(words(want["scope"])) | {"openid"}, "scope")
            eq(len(scope), len(set(scope)), "repeated scopes in {}".format(scope))
            if "nonce" not in want and not (set(rt) & {"code", "id_token"}):
                got.pop("nonce", None)
            elif "nonce" in want:
                eq(got.get("nonce"), want["nonce"], "nonce")
            else:
                check(len(got.get("nonce", "")) >= 16, "nonce {!r}", got.get("nonce"))
            if "offline_access" in words(want["scope"]):
                want.setdefault("prompt", "consent")
        elif "scope" in want:
            eq(scope, words(want["scope"]), "scope")
        if case["pkce"]:
            check(got.get("code_challenge") and got.get("code_challenge_method"), "no challenge in {}", sorted(got))
        more = {k: norm(k, v) for k, v in got.items() if k not in ("state", "client_id", "redirect_uri", "response_type", "scope", "nonce", "code_challenge", "code_challenge_method")}
        # OAuth2's request has no definition for OpenID Connect's parameters: only what the caller gave is sent
        if not oidc:
            want = dict(args)
        exp = {k: norm(k, v) for k, v in want.items() if k not in ("response_type", "scope", "nonce", "state", "redirect_uri")}
        if not oidc and "nonce" in args:
            exp["nonce"] = more["nonce"] = got.get("nonce")
            eq(got.get("nonce"), args["nonce"], "nonce")
        eq(more, exp, "parameters")
        # the record
        rec = c.state.get_item(AuthorizationRequest if oidc else OauthRequest, "auth_request", state)
        if oidc:
            recd = {k: norm(k, v) for k, v in rec.items()}
            eq(recd, {k: norm(k, v) for k, v in dict(rest).items()}, "record of the session")
            if "nonce" in got:
                eq(c.state.get_state_by_nonce(got["nonce"]) if "nonce" not in args or len(case["reqs"]) == 1 else state, state, "login found by nonce")
        else:
            for k in ("state", "redirect_uri", "client_id"):
                eq(rec.get(k), got[k], "recorded " + k)
            eq(sorted(rec.keys()), sorted(got), "recorded parameters")
        if at_handler:
            eq(c.state.get_iss(state), op.issuer, "issuer of the login")
        if args or case["conf"] or case["svc"] or case["eq"]:
            t.nontriv("level:" + case["level"], "kind:" + case["kind"], "uris:" + case["uris"], "n:%d" % n, "rt:" + " ".join(rt),
                      "mode:%s" % mode, "endpoint query" if case["eq"] else "plain endpoint")
