"""C27: Encrypted user information is treated like the same content unencrypted."""
import base64
import copy
import json

from hypothesis import strategies as st

import world as W
from cryptojwt.jwe.jwe import JWE
from op import OP, World, client_conf, ctx, handler, response, sign, store_dump
from vt import attempt, check, eq, fail, test

RULE = ("Case = client (static/dynamic, registered or not encryption and signing algorithms, own encryption keys), one or two logins, the content of a user info response (right or wrong subject, signer, damaged signature, further claims; signed or plain), and its encryption "
        "(algorithm, content encryption, recipient, key identifier, damage to each part). The same login is answered with the content as it is and encrypted; the outcome and what is recorded have to be the same. If it isn't encrypted for this client or is damaged, it has to be refused and nothing recorded. Non-trivial: the encrypted answer was decided by decrypting it.")
ASSUMPTIONS = ["a signed JWT inside carries cty JWT, plain JSON none (RFC 7516, OIDC Core)", "encrypted ID Tokens are refused by oidcmsg 1.6.0 whatever they contain and aren't claimed", "encryption is done with cryptojwt, which finds the key among several only by its identifier"]

ALGS = ["RSA-OAEP", "RSA-OAEP-256", "RSA1_5", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A256KW"]
ENCS = ["A128CBC-HS256", "A256CBC-HS512", "A128GCM", "A256GCM"]


@st.composite
def cases(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    alg, enc = d(*ALGS), d(*ENCS)
    return {"dyn": d(False, True), "rt": d("code", "code", "id_token token", "code token"), "alg": alg, "enc": enc, "reg_enc": d(None, "same", "same", "same", "other alg", "other enc"), "reg_sig": d(None, "RS256", "ES256"),
            "adv": d(True, False), "signed": d(True, True, False), "sig_alg": d("RS256", "RS256", "ES256"), "signer": d("own", "own", "own", "other", "evil"), "sub": d("own", "own", "own", "other", "none"), "bad_sig": d(False, False, False, False, True),
            "claims": draw(st.dictionaries(st.sampled_from(["email", "name", "x é", "address"]), st.one_of(st.text(max_size=5), st.integers(-5, 5), st.just({"a": [1]})), max_size=3)), "iss": d(True, True, True, False), "aud": d(True, True, False),
            "to": d("rp", "rp", "rp", "rp", "rp", "rp", "other", "evil"), "kid": d("yes", "yes", "no", "wrong"), "damage": d(*[None] * 8 + ["header", "key", "iv", "text", "tag", "short", "swap"]),
            "ctype": d("application/jwt", "application/jwt", "application/jwt; charset=UTF-8", "Application/JWT"), "method": d("GET", "GET", "POST"), "other_login": d(False, True), "two_keys": d(False, True)}


def encrypted(c, text):
    kw = {"alg": c["alg"], "enc": c["enc"]}
    if c["signed"]:
        kw["cty"] = "JWT"
    owner = {"rp": "rp", "other": "op2", "evil": "evil"}[c["to"]]
    k = copy.copy(W.key(owner + ("_ecenc" if c["alg"].startswith("ECDH") else "_rsaenc")))
    if c["kid"] == "no":
        k.kid = ""
    elif c["kid"] == "wrong":
        k.kid = W.key("op2_rsaenc").kid if c["alg"].startswith("ECDH") else W.key("op2_ecenc").kid
    tok = JWE(text, **kw).encrypt([k])
    p = tok.split(".")
    dmg = c["damage"]
    i = {"header": 0, "key": 1, "iv": 2, "text": 3, "tag": 4}.get(dmg)
    if dmg == "header":
        hdr = json.loads(base64.urlsafe_b64decode(p[0] + "=" * (-len(p[0]) % 4)))
        hdr["x"] = "y"
        p[0] = W.b64(json.dumps(hdr).encode())
    elif i is not None:
        if not p[i]:       # no encrypted key with direct agreement
            return tok, False
        p[i] = ("A" if p[i][0] != "A" else "B") + p[i][1:]
    elif dmg == "short":
        p = p[:4]
    elif dmg == "swap":
        other = JWE(text + " ", **kw).encrypt([k]).split(".")
        p[3] = other[3]
    return ".".join(p), bool(dmg)


@test(cases(), quick=2000, thorough=25000)
def userinfo(c, t):
    outcomes = []
    damaged = False
    for how in ("plain", "encrypted"):
        with World() as w:
            meta = {"userinfo_signing_alg_values_supported": ["RS256", "ES256"]}
            if c["adv"]:
                meta.update(userinfo_encryption_alg_values_supported=ALGS, userinfo_encryption_enc_values_supported=ENCS)
            o, other = OP(w, 0, meta=meta), OP(w, 1)
            kj = W.keyjar_of("rp")
            names = ["rp_rsa", "rp_ec256", "rp_rsaenc", "rp_ecenc"]
            if c["two_keys"] and c["kid"] == "yes":
                names = names[:2] + ["op1_rsaenc", "op1_ecenc"] + names[2:]
            kj.import_jwks({"keys": [W.key(n).serialize(private=True) for n in names]}, "")
            kj.import_jwks({"keys": [W.key(n).serialize(private=True) for n in names]}, "https://rp.example.com")
            conf = client_conf(o, c["rt"], dynamic=c["dyn"])
            b = conf["client_preferences" if c["dyn"] else "behaviour"]
            if c["reg_sig"]:
                b["userinfo_signed_response_alg"] = c["reg_sig"]
            reg = None
            if c["reg_enc"] and (c["adv"] or not c["dyn"]):
                reg = {"same": (c["alg"], c["enc"]), "other alg": (ALGS[(ALGS.index(c["alg"]) + 1) % len(ALGS)], c["enc"]), "other enc": (c["alg"], ENCS[(ENCS.index(c["enc"]) + 1) % len(ENCS)])}[c["reg_enc"]]
                b["userinfo_encrypted_response_alg"], b["userinfo_encrypted_response_enc"] = reg
            rph = handler({"op": conf}, keyjar=kj)
            if c["other_login"]:
                begun = rph.begin("op")
                lg2, resp = o.authorize(begun["url"], sub="another")
                rph.finalize(o.issuer, resp)
            begun = rph.begin("op")
            client = rph.issuer2rp[o.issuer]
            if c["method"] == "POST":
                client.client_get("service", "userinfo").http_method = "POST"
            lg, resp = o.authorize(begun["url"], sub="user")
            out = attempt(rph.finalize_auth, client, o.issuer, resp)
            check(out.ok, "redirect: {!r}", out)
            if "code" in c["rt"].split():
                out = attempt(rph.get_tokens, begun["state"], client)
                check(out.ok and "error" not in out.value, "tokens: {!r}", out)
            before = json.dumps(store_dump(client), sort_keys=True, default=str)
            content = dict(c["claims"])
            if c["sub"] != "none":
                content["sub"] = {"own": "user", "other": "another"}[c["sub"]]
            if c["signed"]:
                if c["iss"]:
                    content["iss"] = o.issuer
                if c["aud"]:
                    content["aud"] = [ctx(client).client_id]
                text = sign(content, c["sig_alg"], owner={"own": "op0", "other": "op1", "evil": "evil"}[c["signer"]])
                if c["bad_sig"]:
                    h, p, s = text.split(".")
                    text = ".".join([h, p, ("A" if s[0] != "A" else "B") + s[1:]])
            else:
                text = json.dumps(content)
            if how == "plain":
                body, ctype = text, c["ctype"] if c["signed"] else "application/json"
            else:
                body, damaged = encrypted(c, text)
                ctype = c["ctype"]
            o.userinfo_hook = lambda req: response(200, body, ctype)
            out = attempt(rph.get_user_info, begun["state"], client)
            after = store_dump(client)
            rec = json.loads(after[begun["state"]]) if isinstance(after[begun["state"]], str) else after[begun["state"]]
            rec = rec.get("user_info")
            rec = json.loads(rec) if isinstance(rec, str) else rec
            val = dict(out.value.to_dict()) if out.ok else None
            changed = json.dumps(after, sort_keys=True, default=str) != before
            outcomes.append((out.ok, val, rec, changed, out))
    plain, enc = outcomes
    what = "{} {} for {} kid {} damage {}, registered {} {}".format(c["alg"], c["enc"], c["to"], c["kid"], c["damage"], reg, c["reg_sig"])
    wrong_alg = reg is not None and c["reg_enc"] != "same"
    if c["to"] != "rp" or damaged or wrong_alg:
        check(not enc[0], "accepted: {} gave {!r}", what, enc[1])
        check(not enc[3], "refused, but recorded: {} {!r}", what, enc[2])
        t.nontriv("refused:" + ("recipient" if c["to"] != "rp" else "damaged" if damaged else "algorithm"))
        return
    if c["kid"] == "wrong" and not enc[0]:
        check(not enc[3], "refused, but recorded: {} {!r}", what, enc[2])
        return t.label("unknown key identifier refused")
    if enc[0] != plain[0]:
        fail("{}: unencrypted {!r}, encrypted {!r}", what, plain[4], enc[4])
    eq(enc[1], plain[1], "user info of " + what)
    eq(enc[2], plain[2], "recorded user info of " + what)
    eq(enc[3], plain[3], "session changed by " + what)
    t.nontriv("same:" + ("accepted" if enc[0] else "refused"), "alg:" + c["alg"], "enc:" + c["enc"])
