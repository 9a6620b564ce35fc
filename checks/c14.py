"""C14: Negotiated behaviour is what the client prefers among what the provider supports."""
import copy
import json

from hypothesis import strategies as st

from op import OP, World, client_conf, ctx, handler, response
from vt import attempt, check, eq, test

RULE = ("Case = client preferences (single values and ordered lists) for every negotiable behaviour, capability lists of the provider (some left out), preferences without provider side, already configured behaviour, "
        "and possibly a second provider document for the same client. A reference matcher written from the standard computes the behaviour or the failure; also the registration request must announce it. "
        "Non-trivial: at least one negotiable preference where client and provider differ.")
ASSUMPTIONS = ["an empty list of preferred values is not a preference and is not generated", "response types are compared in the canonical order of their words"]

SIG = ["RS256", "RS384", "ES256", "ES512", "PS256", "HS256", "none"]
ENCA = ["RSA-OAEP", "RSA-OAEP-256", "RSA1_5", "ECDH-ES", "A128KW", "dir"]
ENCE = ["A128CBC-HS256", "A256GCM", "A128GCM", "A256CBC-HS512"]
# preference -> (provider parameter, values, list valued, standard's default when the provider is silent)
TABLE = {
    "request_object_signing_alg": ("request_object_signing_alg_values_supported", SIG, False, None),
    "request_object_encryption_alg": ("request_object_encryption_alg_values_supported", ENCA, False, None),
    "request_object_encryption_enc": ("request_object_encryption_enc_values_supported", ENCE, False, None),
    "userinfo_signed_response_alg": ("userinfo_signing_alg_values_supported", SIG, False, None),
    "userinfo_encrypted_response_alg": ("userinfo_encryption_alg_values_supported", ENCA, False, None),
    "userinfo_encrypted_response_enc": ("userinfo_encryption_enc_values_supported", ENCE, False, None),
    "id_token_signed_response_alg": ("id_token_signing_alg_values_supported", SIG, False, ["RS256"]),
    "id_token_encrypted_response_alg": ("id_token_encryption_alg_values_supported", ENCA, False, None),
    "id_token_encrypted_response_enc": ("id_token_encryption_enc_values_supported", ENCE, False, None),
    "default_acr_values": ("acr_values_supported", ["1", "2", "urn:x", "urn"], True, None),
    "subject_type": ("subject_types_supported", ["public", "pairwise"], False, None),
    "token_endpoint_auth_method": ("token_endpoint_auth_methods_supported", ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"], False, ["client_secret_basic"]),
    "token_endpoint_auth_signing_alg": ("token_endpoint_auth_signing_alg_values_supported", SIG[:-1], False, None),
    "response_types": ("response_types_supported", ["code", "id_token", "id_token token", "code id_token", "code token", "code id_token token"], True, None),
    "grant_types": ("grant_types_supported", ["authorization_code", "implicit", "refresh_token", "urn:ietf:params:oauth:grant-type:device_code"], True, ["authorization_code", "implicit"]),
    "scope": ("scopes_supported", ["openid", "profile", "email", "offline_access", "mail"], True, None),
}
REQUIRED = {"subject_types_supported", "response_types_supported", "id_token_signing_alg_values_supported"}
OTHER = st.fixed_dictionaries({}, optional={
    "application_type": st.sampled_from(["web", "native", ["web", "native"], ["native", "web"], ["native"]]), "application_name": st.just("rphandler"), "contacts": st.lists(st.sampled_from(["ops@example.com", "a@b.c"]), min_size=1, max_size=2),
    "client_name": st.sampled_from(["X", "Åke's app"]), "default_acr": st.just(["2", "1"]), "require_auth_time": st.booleans(), "default_max_age": st.one_of(st.integers(0, 9999), st.lists(st.integers(1, 9999), min_size=1, max_size=3)), "logo_uri": st.just("https://rp.example.com/logo.png"),
    "form_post_usable": st.booleans(), "my_own_thing": st.sampled_from([{"a": [1]}, "x", 7]), "frontchannel_logout_session_required": st.booleans()})


def some(values, min_size=1):
    return st.lists(st.sampled_from(values), min_size=min_size, max_size=len(values), unique=True)


@st.composite
def meta(draw, prefs, wanted):
    m = {}
    for pref, (prov, values, lst, dflt) in TABLE.items():
        if pref in prefs or draw(st.integers(0, 3)) == 0:
            if prov not in REQUIRED and draw(st.integers(0, 3)) == 0:
                continue
            mine = wanted.get(pref)
            mine = [mine] if isinstance(mine, str) else mine
            vals = draw(some(values))
            if mine and draw(st.integers(0, 5)):     # mostly they have something in common
                vals = draw(st.permutations(sorted(set(vals) | {draw(st.sampled_from(mine))})))
            if prov == "scopes_supported" and "openid" not in vals:
                vals = ["openid"] + vals
            if prov == "id_token_signing_alg_values_supported" and "RS256" not in vals:
                vals = vals + ["RS256"]
            m[prov] = list(vals)
        elif prov not in REQUIRED:
            m[prov] = None
    return m


@st.composite
def cases(draw):
    prefs = draw(st.lists(st.sampled_from(sorted(TABLE)), min_size=1, max_size=7, unique=True))
    if "response_types" not in prefs:
        prefs.append("response_types")
    wanted = {}
    for p in prefs:
        prov, values, lst, dflt = TABLE[p]
        wanted[p] = draw(some(values)) if lst else draw(st.one_of(st.sampled_from(values), some(values)))
    conf = {}
    if draw(st.integers(0, 2)) == 0:       # behaviour that's configured beside the preferences
        for p in draw(st.lists(st.sampled_from(sorted(TABLE)), max_size=2, unique=True)):
            prov, values, lst, dflt = TABLE[p]
            conf[p] = draw(some(values)) if lst else draw(st.sampled_from(values))
    return {"wanted": wanted, "other": draw(OTHER), "conf": conf, "metas": draw(st.lists(meta(prefs, wanted), min_size=1, max_size=2)), "order": draw(st.permutations(sorted(wanted)))}


def reference(wanted, provider):
    """The negotiated behaviour, None if something can't be matched."""
    res = {}
    for pref, mine in wanted.items():
        prov, values, lst, dflt = TABLE[pref]
        theirs = provider.get(prov)
        if theirs is None:
            theirs = dflt
        mine = [mine] if isinstance(mine, str) else mine
        both = [v for v in mine if theirs is None or v in theirs]
        if not both:
            return None
        res[pref] = both if lst else both[0]
    return res


@test(cases(), quick=6000, thorough=70000)
def negotiate(case, t):
    with World() as w:
        run(case, t, w)


def run(case, t, w):
    op = OP(w, 0)
    wanted, other = case["wanted"], case["other"]
    prefs = {k: copy.deepcopy(wanted[k]) for k in case["order"]}
    prefs.update(copy.deepcopy(other))
    conf = {"issuer": op.issuer, "client_preferences": prefs}
    if case["conf"]:
        conf["behaviour"] = copy.deepcopy(case["conf"])
    orig = copy.deepcopy(conf)
    # alternatives for something that has one value: the first one
    other = {k: v[0] if k in ("application_type", "default_max_age") and isinstance(v, list) else v for k, v in other.items()}
    rh = handler({op.issuer: conf})
    client = None
    for n, m in enumerate(case["metas"]):
        op.meta = dict({v[0]: None for v in TABLE.values() if v[0] not in REQUIRED}, **m)
        provider = op.metadata()
        if "none" in provider.get("token_endpoint_auth_signing_alg_values_supported", []):
            provider["token_endpoint_auth_signing_alg_values_supported"].remove("none")
        want = reference(wanted, provider)
        mark = len(w.log)
        if n == 0:
            out = attempt(rh.client_setup, op.issuer)
            if out.ok:
                client = out.value
        elif client is not None:
            before = copy.deepcopy(ctx(client).behaviour)
            out = attempt(client.do_request, "provider_info")
        else:
            out = attempt(rh.client_setup, op.issuer)
            if out.ok:
                client = out.value
        differ = any(provider.get(TABLE[p][0]) is not None and set([v] if isinstance(v, str) else v) != set(provider[TABLE[p][0]]) for p, v in wanted.items())
        if want is None:
            check(not out.ok, "nothing of {} matches {} but the set up went on with {}", wanted, provider, ctx(client).behaviour if client else None)
            check(not w.since(mark, op.netloc, "/register"), "registered although the preferences don't match")
            if client is None:
                check(op.issuer not in rh.issuer2rp, "client in use although the preferences don't match")
            else:
                eq(ctx(client).behaviour, before, "behaviour after a document that doesn't match")
            t.label("no match")
        else:
            check(out.ok, "preferences {} at {}: {!r}", wanted, provider, out)
            got = ctx(client).behaviour
            for pref, v in want.items():
                eq(got.get(pref), v, "negotiated " + pref)
            for k, v in other.items():
                eq(got.get(k), v, "preference " + k)
            for k, v in case["conf"].items():
                if k not in wanted:
                    eq(got.get(k), v, "configured " + k)
            extra = set(got) - set(want) - set(other) - set(case["conf"])
            eq(extra, set(), "behaviour that was not asked for")
            regs = w.since(mark, op.netloc, "/register")
            for r in regs:
                body = json.loads(r.body)
                for pref, v in want.items():
                    if pref not in ("scope", "grant_types"):
                        eq(body.get(pref), v, "announced " + pref)
                    elif pref == "grant_types":
                        eq([g for g in body.get(pref, []) if g in v], v, "announced " + pref)
                for k in ("application_type", "contacts", "client_name", "require_auth_time", "default_max_age", "logo_uri", "frontchannel_logout_session_required"):
                    if k in other:
                        eq(body.get(k), other[k], "announced " + k)
            eq(len(regs), 1 if n == 0 or mark == 0 or op.issuer in rh.issuer2rp and n == 0 else len(regs), "registrations")
            t.label("match")
        eq(conf, orig, "configuration")
        if differ:
            t.nontriv("n:%d" % n, *["pref:" + p for p in wanted])
