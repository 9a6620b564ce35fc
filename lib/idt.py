"""ID Tokens, good and bad, with the reasons why they must be refused."""
import base64
import copy
import json
import time

from hypothesis import strategies as st

import world as W
from op import sign

FRONT = ["id_token", "id_token token", "code id_token", "code id_token token"]
BACK = ["code", "code id_token"]

# (claim mutation, is the token still acceptable)  -- offsets relative to now, S = skew
MUT = st.one_of(
    st.tuples(st.just("iss"), st.sampled_from(["other", "slash", "http", "upper", "prefix", "suffix", "missing", "client", "base"])),
    st.tuples(st.just("aud"), st.sampled_from(["other", "missing", "empty", "prefix", "str_ok", "multi_azp_ok", "multi_no_azp",
                                               "multi_azp_other", "multi_azp_outside", "first_other_azp_ok", "superstring"])),
    st.tuples(st.just("azp"), st.sampled_from(["ok", "other"])),
    st.tuples(st.just("exp"), st.sampled_from(["past_in_skew", "just_valid", "just_past", "past", "long_past", "missing", "zero", "future", "string"])),
    st.tuples(st.just("iat"), st.sampled_from(["future_in_skew", "just_early", "just_future", "future", "far_future", "old_ok", "too_old", "missing", "after_exp"])),
    st.tuples(st.just("nonce"), st.sampled_from(["other", "missing", "empty", "other_session", "case", "prefix", "superstring", "state"])),
    st.tuples(st.just("sub"), st.sampled_from(["missing", "unicode", "space", "case"])),
    st.tuples(st.just("extra"), st.sampled_from(["email", "custom", "auth_time", "acr", "amr", "sid"])),
)
SIGNERS = ["good"] * 8 + ["evil", "evil_same_kid", "other_op", "own", "no_kid", "pub_as_hmac", "wrong_secret", "iss_in_kid"]
TAMPER = ["none"] * 8 + ["payload", "sig", "strip_sig", "alg_none", "swap_header", "truncate", "extra_part", "not_jwt"]
ALGS = ["RS256", "ES256", "HS256", "PS256", "RS384", "ES384"]


def b64d(s):
    return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))


def b64e(b):
    return base64.urlsafe_b64encode(b).decode().rstrip("=")


class Build:
    """Produces the ID Token of the case and says whether it has to be accepted."""

    def __init__(self, case, op, other, rh, other_nonce):
        self.case, self.op, self.other, self.rh = case, op, other, rh
        self.other_nonce = other_nonce
        self.reject = []        # reasons why it must be rejected
        self.dontcare = []      # the specification leaves it open
        self.claims = None
        self.unusual = False

    def claims_for(self, lg, at, code):
        case, op = self.case, self.op
        now = int(time.time())
        S = 15 if case["skew"] is None else case["skew"]
        c = op.id_claims(lg, at, code)
        bad = self.reject.append
        cid = lg.client_id
        for name, how in case["muts"]:
            self.unusual = True
            if name == "iss":
                v = {"other": self.other.issuer, "slash": op.issuer + "/", "http": op.issuer.replace("https", "http"),
                     "upper": op.issuer.upper(), "prefix": op.issuer[:-1], "suffix": op.issuer + "x", "client": cid,
                     "base": "https://rp.example.com", "missing": None}[how]
                c["iss"] = v
                bad("iss " + how)
            elif name == "aud":
                oth = "someone-else"
                v = {"other": [oth], "missing": None, "empty": [], "prefix": [cid[:-1]], "superstring": [cid + "x"],
                     "str_ok": cid, "multi_azp_ok": [oth, cid],
                     "multi_no_azp": [cid, oth], "multi_azp_other": [cid, oth], "multi_azp_outside": [cid, oth],
                     "first_other_azp_ok": [oth, "b", cid]}[how]
                c["aud"] = v
                if how in ("multi_azp_ok", "first_other_azp_ok"):
                    c["azp"] = cid
                elif how == "multi_azp_other":
                    c["azp"] = oth
                elif how == "multi_azp_outside":
                    c["azp"] = "third"
                elif how == "multi_no_azp":
                    c.pop("azp", None)
            elif name == "azp":
                c["azp"] = cid if how == "ok" else "someone-else"
            elif name == "exp":
                if how in ("just_valid", "just_past"):
                    # the clock stands still: a second before and after the end
                    c["exp"] = now - S + (1 if how == "just_valid" else -1)
                    c["iat"] = c["exp"] - 300
                    if how == "just_past":
                        bad("expired")
                elif how == "past_in_skew":
                    c["exp"] = now - S + 40
                    if S < 100:
                        c["exp"] = now + 40
                    c["iat"] = c["exp"] - 300
                elif how == "past":
                    c["exp"] = now - S - 40
                    c["iat"] = c["exp"] - 300
                    bad("expired")
                elif how == "long_past":
                    c["exp"] = now - 4000
                    c["iat"] = now - 7600
                    bad("expired")
                elif how == "zero":
                    c["exp"] = 0
                    bad("expired")
                elif how == "missing":
                    c["exp"] = None
                    bad("no exp")
                elif how == "string":
                    c["exp"] = "tomorrow"
                    bad("exp not a number")
                elif how == "future":
                    c["exp"] = now + 10 ** 6
            elif name == "nonce":
                n = lg.nonce
                v = {"other": "n-0S6_WzA2Mj", "missing": None, "empty": "", "other_session": self.other_nonce,
                     "case": n.swapcase(), "prefix": n[:-1], "superstring": n + "a", "state": lg.state}[how]
                c["nonce"] = v
                if case["where"] == "refresh" and how == "empty":
                    self.dontcare.append("an empty nonce is no nonce")
                elif case["where"] != "refresh" or how != "missing":
                    bad("nonce " + how)
            elif name == "sub":
                if how == "missing":
                    c["sub"] = None
                    bad("no sub")
                else:
                    c["sub"] = "us\u00e9r/\u4e2d 1|=" if how == "unicode" else lg.sub + " " if how == "space" else lg.sub.swapcase()
                    if case["where"] == "refresh" or case["where"] == "back" and "id_token" in case["rt"]:
                        bad("another user")
                    if case["where"] != "refresh":
                        lg.sub = c["sub"]
            elif name == "extra":
                c.update({"email": {"email": "a@b.example"}, "custom": {"https://x.example/c": {"a": [1, "b"]}},
                          "auth_time": {"auth_time": now - 50}, "acr": {"acr": "urn:x"}, "amr": {"amr": ["pwd", "otp"]},
                          "sid": {"sid": "sid-1"}}[how])
        # iat last: it interacts with exp
        for name, how in case["muts"]:
            if name != "iat":
                continue
            exp_mut = [m for m in case["muts"] if m[0] == "exp"]
            if how == "future_in_skew":
                if S >= 100:
                    c["iat"] = now + S - 40
                    if exp_mut and isinstance(c.get("exp"), int) and c["exp"] < c["iat"]:
                        bad("exp before iat")
            elif how == "just_early":
                c["iat"] = now + S - (1 if S else 0)
                if exp_mut and isinstance(c.get("exp"), int) and c["exp"] < c["iat"]:
                    bad("exp before iat")
            elif how == "just_future":
                c["iat"] = now + S + 2
                bad("issued in the future")
            elif how == "future":
                c["iat"] = now + S + 60
                bad("issued in the future")
            elif how == "far_future":
                c["iat"] = now + 10 ** 5
                bad("issued in the future")
            elif how == "old_ok":
                c["iat"] = now - 3600
            elif how == "too_old":
                c["iat"] = now - 4 * 3600 - S - 60
                self.dontcare.append("iat age limit is the library's choice")
            elif how == "missing":
                c["iat"] = None
                bad("no iat")
            elif how == "after_exp":
                c["iat"] = now
                if isinstance(c.get("exp"), int) and not exp_mut:
                    c["exp"] = now - 60
                    bad("exp before iat")
        if isinstance(c.get("exp"), int) and isinstance(c.get("iat"), int) and c["exp"] < c["iat"]:
            bad("exp before iat")
        aud = c.get("aud")
        if cid not in ([aud] if isinstance(aud, str) else aud or []):
            bad("aud without this client")
        elif isinstance(aud, list) and len(aud) > 1 and "azp" not in c:
            bad("aud multiple without azp")
        if "azp" in c and c["azp"] != cid:
            bad("azp is someone else")
        if case["where"] == "front":
            h = case["hash"]
            alg = case["alg"]
            if h != "ok":
                self.unusual = True
            if at and h in ("at_wrong", "value_swapped"):
                c["at_hash"] = W.left_hash(at + "x", alg)
                bad("at_hash")
            if at and h == "at_missing":
                c.pop("at_hash")
                bad("at_hash missing")
            if at and h == "at_full":
                c["at_hash"] = W.b64(__import__("hashlib").sha256(at.encode()).digest())
                bad("at_hash full length")
            if code and h == "c_wrong":
                c["c_hash"] = W.left_hash("x" + code, alg)
                bad("c_hash")
            if code and h == "c_missing":
                c.pop("c_hash")
                bad("c_hash missing")
            if at and code and h == "swapped":
                c["at_hash"], c["c_hash"] = c["c_hash"], c["at_hash"]
                bad("hashes swapped")
        return {k: v for k, v in c.items() if v is not None}

    def token(self, lg, at=None, code=None, **kw):
        case, op = self.case, self.op
        alg = op.alg = case["alg"]
        c = self.claims_for(lg, at, code)
        self.claims = c
        s = case["signer"]
        if s != "good":
            self.unusual = True
        if s in ("good", "iss_in_kid"):
            tok = sign(c, alg, owner=op.owner, secret=op.secret)
        elif s == "no_kid":
            tok = sign(c, alg, owner=op.owner, secret=op.secret, kid=False)
            self.dontcare.append("kid may be required when several keys match")
        elif s in ("evil", "evil_same_kid", "other_op", "own"):
            if alg.startswith("HS"):
                tok = sign(c, alg, secret="another-secret-" + "q" * 40)
            else:
                owner = {"evil": "evil", "evil_same_kid": "evil", "other_op": "op1", "own": "rp"}[s]
                k = W.key(W.kname(owner, alg))
                if s == "evil_same_kid":
                    k = copy.copy(k)
                    k.kid = W.key(W.kname(op.owner, alg)).kid
                tok = sign(c, alg, keyobj=k)
            self.reject.append("signed by " + s)
        elif s == "pub_as_hmac":
            pub = W.key(op.owner + "_rsa").serialize(private=False)
            tok = sign(c, alg, secret=json.dumps(pub))
            self.reject.append("signed with the public key as secret")
        else:
            tok = sign(c, alg, secret="wrong-" + op.secret)
            self.reject.append("wrong secret")
        t = case["tamper"]
        if t != "none":
            self.unusual = True
            h, p, sg = tok.split(".")
            if t == "payload":
                d = json.loads(b64d(p))
                d["sub"] = "victim"
                p = b64e(json.dumps(d).encode())
            elif t == "sig":
                raw = bytearray(b64d(sg))
                raw[len(raw) // 2] ^= 1
                sg = b64e(bytes(raw))
            elif t == "strip_sig":
                sg = ""
            elif t == "alg_none":
                h = b64e(json.dumps({"alg": "none"}).encode())
                sg = ""
            elif t == "swap_header":
                d = json.loads(b64d(h))
                d["alg"] = "RS512" if alg != "RS512" else "RS256"
                h = b64e(json.dumps(d).encode())
            elif t == "truncate":
                sg = sg[:-8]
            tok = ".".join([h, p, sg])
            if t == "extra_part":
                tok = tok + "." + sg
            elif t == "not_jwt":
                tok = json.dumps(c)
            self.reject.append("tampered " + t)
        return tok
