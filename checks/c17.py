"""C17: Cookies round-trip exactly and any alteration is detected."""
import base64
import time
from http.cookies import SimpleCookie

from hypothesis import strategies as st

from vt import attempt, check, eq, fail, test

RULE = ("roundtrip: generated values, time stamps, keys (also binary), attributes; parse gives exactly value and time stamp and the Set-Cookie attributes read by an independent reader are the requested ones. tamper: the cookie value is altered by "
        "generated edits (bit flips, moved or removed separators, spliced parts of another cookie, truncation, base64 noise), other keys, mode or name; it must be refused with InvalidCookieSign, be absent or give the original value. "
        "dealer: the same through CookieDealer. Non-trivial: altered cookie differs from the original / value with separators, quotes or non-ASCII.")
ASSUMPTIONS = ["time stamps and cookie types are chosen by the developer and contain no separator (| resp. ::)", "values have no control characters (the standard library refuses them)", "cookie names are legal tokens and not attribute names"]

VALUE = st.one_of(st.text(max_size=30), st.text("ab|:;,=\" \\0123456789é%&+/", max_size=20), st.sampled_from(["", "|", "||", "a|b|c", "1463043535", "a|1463043535", "x::y", "; Path=/", "\"", "\\073", "ä|ö"]))
TS = st.one_of(st.just(""), st.integers(0, 2 ** 33).map(str), st.text("0123456789", min_size=1, max_size=12), st.text("abcXYZ019:-. ", min_size=1, max_size=10))
KEY = st.one_of(st.binary(min_size=16, max_size=40).map(lambda b: {"hex": b.hex()}), st.text(min_size=16, max_size=40).filter(lambda s: s.isprintable()))
NAME = st.text("abcXYZ019_-", min_size=1, max_size=8).filter(lambda n: n.lower() not in ("path", "domain", "expires", "secure", "httponly", "samesite", "version", "comment"))
VALUE = VALUE.filter(lambda s: not any(0xD800 <= ord(c) <= 0xDFFF or ord(c) < 32 or ord(c) == 127 for c in s))


def key(k):
    """A generated key: text, or a byte string written as {"hex": ...}"""
    return bytes.fromhex(k["hex"]) if isinstance(k, dict) else k


def keys(c):
    return {n: key(v) if n in ("seed", "enc", "sym", "key2") else v for n, v in c.items()}


def attributes(header):
    """name, raw value, {attribute: value} of a Set-Cookie value (quoted values have no bare semicolon)"""
    parts = header.split(";")
    name, _, val = parts[0].partition("=")
    res = {}
    for p in parts[1:]:
        k, eq_, v = p.strip().partition("=")
        check(k.lower() not in res, "attribute {} twice in {}", k, header)
        res[k.lower()] = v if eq_ else True
    return name, val, res


@st.composite
def makes(draw):
    return {"name": draw(NAME), "value": draw(VALUE), "ts": draw(TS), "seed": draw(KEY), "enc": draw(st.one_of(st.none(), KEY)), "expire": draw(st.sampled_from([0, 0, 1, 5, 60, 100000, -1, -5])),
            "path": draw(st.sampled_from(["", "", "/", "/oidc", "/a/b-c"])), "domain": draw(st.sampled_from(["", "", "rp.example.com", ".example.com"])), "secure": draw(st.booleans()), "http": draw(st.booleans()),
            "same": draw(st.sampled_from(["", "", "None", "Strict", "Lax"])), "others": draw(st.booleans()), "as_bytes": draw(st.booleans())}


def make(c):
    from oidcrp.cookie import make_cookie
    return make_cookie(c["name"], c["value"], c["seed"], expire=c["expire"], domain=c["domain"], path=c["path"], timestamp=c["ts"], enc_key=c["enc"], secure=c["secure"], http_only=c["http"], same_site=c["same"])


def request_header(c, header):
    """What a browser sends back"""
    name, val, _ = attributes(header)
    res = name + "=" + val
    return "aaa=1; " + res + "; zzz=\"2\"" if c["others"] else res


@test(makes(), quick=6000, thorough=80000)
def roundtrip(c, t):
    c = keys(c)
    from oidcrp.cookie import parse_cookie
    before = int(time.time())
    head, header = make(c)
    after = int(time.time())
    eq(head, "Set-Cookie", "header name")
    check("\n" not in header and "\r" not in header, "line break in the header {!r}", header)
    name, val, attr = attributes(header)
    eq(name, c["name"], "cookie name")
    want = {}
    if c["path"]:
        eq(attr.pop("path", "").strip('"'), c["path"], "Path")
    if c["domain"]:
        want["domain"] = c["domain"]
    if c["same"]:
        want["samesite"] = c["same"]
    if c["secure"]:
        want["secure"] = True
    if c["http"]:
        want["httponly"] = True
    exp = attr.pop("expires", None)
    eq(attr, want, "attributes of " + header)
    if c["expire"]:
        check(exp is not None, "no expiry in {}", header)
        import calendar
        at = calendar.timegm(time.strptime(exp, "%a, %d-%b-%Y %H:%M:%S GMT"))
        check(before + 60 * c["expire"] - 2 <= at <= after + 60 * c["expire"] + 2, "expires {} for {} minutes", exp, c["expire"])
    else:
        check(exp is None, "expiry {} although none is asked for", exp)
    back = header if c["as_bytes"] and not c["others"] else request_header(c, header)
    got = parse_cookie(c["name"], c["seed"], back.encode("utf-8") if c["as_bytes"] else back, c["enc"])
    check(got is not None, "cookie {!r} isn't found", back)
    eq(got[0], c["value"], "value")
    if c["ts"]:
        eq(got[1], c["ts"], "time stamp")
    else:
        check(before <= int(got[1]) <= after, "time stamp {}", got[1])
    eq(parse_cookie(c["name"] + "x", c["seed"], back, c["enc"]), None, "cookie with another name")
    eq(parse_cookie(c["name"], c["seed"], "", c["enc"]), None, "no cookie")
    if c["enc"]:
        parts = plain(header, c["name"]).split("|")
        raw = "|".join(parts[1:]).encode() + b"".join(base64.b64decode(p + "===") for p in parts[1:])
        v = c["value"].encode("utf-8")
        check(len(v) < 7 or (v not in raw and base64.b64encode(v).rstrip(b"=")[:-1] not in raw), "value {!r} is visible in {!r}", c["value"], header)
        _, again = make(c)
        a = plain(again, c["name"]).split("|")
        check(a[1] != parts[1] and (a[2] != parts[2] or len(v) < 12) and a[3] != parts[3], "two encryptions are the same: {} {}", parts, a)
    if any(ch in c["value"] for ch in "|:;\"\\, ") or not c["value"].isascii():
        t.nontriv("encrypted" if c["enc"] else "signed")


def plain(header, name):
    return SimpleCookie(header.split(";")[0])[name].value


def quoted(name, value):
    k = SimpleCookie()
    k[name] = value
    return k.output(header="").strip()


EDIT = st.one_of(
    st.tuples(st.just("flip"), st.integers(0, 500), st.sampled_from(list("0123456789abcdefAZ+/=|: \"é"))),
    st.tuples(st.just("delete"), st.integers(0, 500)), st.tuples(st.just("insert"), st.integers(0, 500), st.sampled_from(list("0123456789abcd|=+/ é"))),
    st.tuples(st.just("swap"), st.integers(0, 500)), st.tuples(st.just("truncate"), st.integers(0, 500)),
    st.tuples(st.just("move sep"), st.integers(0, 3), st.integers(-14, 14)), st.tuples(st.just("drop part"), st.integers(0, 3)), st.tuples(st.just("dup part"), st.integers(0, 3)),
    st.tuples(st.just("splice"), st.integers(0, 3)), st.tuples(st.just("swap parts"), st.integers(0, 3), st.integers(0, 3)), st.tuples(st.just("case"), st.integers(0, 3)), st.tuples(st.just("empty part"), st.integers(0, 3)),
    st.tuples(st.just("sub part"), st.integers(0, 3), st.sampled_from(["", "AAAA", "0" * 40, "é", "=", "A", "AAAAAAAAAAAAAAAA", "null"])))


def alter(val, edits, other):
    for e in edits:
        k = e[0]
        if k in ("flip", "delete", "insert", "swap", "truncate"):
            if not val:
                continue
            i = e[1] % len(val)
            if k == "flip":
                val = val[:i] + e[2] + val[i + 1:]
            elif k == "delete":
                val = val[:i] + val[i + 1:]
            elif k == "insert":
                val = val[:i] + e[2] + val[i:]
            elif k == "swap":
                val = val[:i] + val[i + 1:i + 2] + val[i] + val[i + 2:]
            else:
                val = val[:i]
            continue
        parts = val.split("|")
        i = e[1] % len(parts)
        if k == "move sep":
            seps = [n for n, ch in enumerate(val) if ch == "|"]
            if not seps:
                continue
            p = seps[e[1] % len(seps)]
            rest = val[:p] + val[p + 1:]
            q = max(0, min(len(rest), p + e[2]))
            val = rest[:q] + "|" + rest[q:]
            continue
        if k == "drop part":
            del parts[i]
        elif k == "dup part":
            parts.insert(i, parts[i])
        elif k == "splice":
            o = other.split("|")
            parts[i] = o[i % len(o)]
        elif k == "swap parts":
            j = e[2] % len(parts)
            parts[i], parts[j] = parts[j], parts[i]
        elif k == "case":
            parts[i] = parts[i].swapcase()
        elif k == "empty part":
            parts[i] = ""
        elif k == "sub part":
            parts[i] = e[2]
        val = "|".join(parts)
    return val


@st.composite
def tampers(draw):
    c = draw(makes())
    c["value2"] = draw(VALUE)
    c["ts2"] = draw(TS)
    c["edits"] = draw(st.lists(EDIT, max_size=3))
    c["wrong"] = draw(st.sampled_from([None, None, None, None, "seed", "enc", "mode", "both", "name", "raw"]))
    c["key2"] = draw(KEY)
    c["raw"] = draw(st.text(max_size=40))
    return c


@test(tampers(), quick=9000, thorough=150000)
def tamper(c, t):
    c = keys(c)
    from oidcrp.cookie import InvalidCookieSign, parse_cookie
    _, header = make(c)
    _, header2 = make(dict(c, value=c["value2"], ts=c["ts2"]))
    orig, other = plain(header, c["name"]), plain(header2, c["name"])
    val = alter(orig, c["edits"], other)
    seed, enc, name = c["seed"], c["enc"], c["name"]
    if c["wrong"] in ("seed", "both"):
        seed = c["key2"]
    if c["wrong"] in ("enc", "both") and enc:
        enc = c["key2"]
    if c["wrong"] == "mode":
        enc = None if enc else c["key2"]
    if c["wrong"] == "name":
        name = name + "2"
    kaka = quoted(name, val)
    if c["wrong"] == "raw":
        kaka = name + "=" + c["raw"]
    want = {(c["value"], parse_ts(c, orig))}
    if val == other:
        want = {(c["value2"], parse_ts(c, other))}
    out = attempt(parse_cookie, name, seed, kaka, enc)
    if not out.ok:
        check(isinstance(out.exc, InvalidCookieSign), "altered cookie {!r}: {!r}", kaka, out.exc)
        t.label("refused")
    elif out.value is None:
        t.label("absent")
    else:
        check(tuple(out.value) in want, "altered cookie {!r} (was {!r}) is accepted as {!r}", val, orig, out.value)
        t.label("same value")
    if val == orig and c["wrong"] in (None, "name"):
        check(out.ok and out.value is not None, "unaltered cookie {!r}: {!r}", kaka, out)
    if c["wrong"] in ("seed", "both", "enc") and (seed, enc) != (c["seed"], c["enc"]) and str(seed) != str(c["seed"]):
        check(not (out.ok and out.value), "accepted with another key: {!r}", out)
    if (val != orig or c["wrong"]) and not (out.ok and out.value is None and c["wrong"] == "raw"):
        t.nontriv("wrong:%s" % c["wrong"], *["edit:" + e[0] for e in c["edits"]])


def parse_ts(c, val):
    parts = val.split("|")
    return parts[0] if c["enc"] else parts[-2]


class Server:
    pass


@st.composite
def dealers(draw):
    return {"value": draw(VALUE), "typ": draw(st.text("abcXYZ_:é", max_size=6).filter(lambda s: "::" not in s and not s.startswith(":"))), "name": draw(NAME), "name2": draw(NAME), "sym": draw(st.one_of(st.none(), KEY)),
            "seed": draw(st.one_of(st.none(), KEY)), "ttl": draw(st.sampled_from([-1, 0, 1, 30, 600])), "dttl": draw(st.sampled_from([5, 1, 90])), "domain": draw(st.sampled_from([None, "", "rp.example.com"])),
            "path": draw(st.sampled_from([None, "", "/oidc"])), "edits": draw(st.lists(EDIT, max_size=2)), "kill": draw(st.booleans()), "dflt": draw(st.booleans())}


@test(dealers(), quick=4000, thorough=60000)
def dealer(c, t):
    c = keys(c)
    from oidcrp.cookie import CookieDealer, InvalidCookieSign
    srv = Server()
    srv.symkey = c["sym"]
    srv.cookie_name = c["name"]
    if c["seed"]:
        srv.seed = c["seed"]
    if c["domain"] is not None:
        srv.cookie_domain = c["domain"]
    if c["path"] is not None:
        srv.cookie_path = c["path"]
    d = CookieDealer(srv, ttl=c["dttl"])
    if c["seed"]:
        eq(srv.seed, c["seed"], "seed of the server")
    t0 = int(time.time())
    name = c["name"] if c["dflt"] else c["name2"]
    _, header = d.create_cookie(c["value"], c["typ"], ttl=c["ttl"], **({} if c["dflt"] else {"cookie_name": name}))
    n, val, attr = attributes(header)
    eq(n, name, "cookie name")
    eq((attr.get("domain", ""), attr.get("path", "")), (c["domain"] or "", c["path"] or ""), "domain and path")
    check(attr.get("secure") and attr.get("httponly"), "not secure: {}", header)
    ttl = c["ttl"] if c["ttl"] >= 0 else c["dttl"]
    eq("expires" in attr, ttl != 0, "expiry of " + header)
    if ttl:
        import calendar
        at = calendar.timegm(time.strptime(attr["expires"], "%a, %d-%b-%Y %H:%M:%S GMT"))
        check(t0 + 60 * ttl - 2 <= at <= t0 + 60 * ttl + 5, "expires {} for {} minutes", attr["expires"], ttl)
    got = d.get_cookie_value(n + "=" + val, name)
    check(got is not None, "cookie {!r} isn't accepted", header)
    eq((got[0], got[2]), (c["value"], c["typ"]), "value and type")
    check(t0 <= int(got[1]) <= t0 + 5, "time stamp {}", got[1])
    eq(d.get_cookie_value(n + "=" + val, name + "x"), None, "cookie with another name")
    eq(d.get_cookie_value(None, name), None, "no cookie")
    # another server doesn't accept it
    srv2 = Server()
    srv2.symkey, srv2.cookie_name = c["sym"], c["name"]
    out = attempt(CookieDealer(srv2).get_cookie_value, n + "=" + val, name)
    check(not (out.ok and out.value), "accepted by a server with another seed: {!r}", out)
    orig = plain(header, name)
    alt = alter(orig, c["edits"], orig)
    out = attempt(d.get_cookie_value, quoted(name, alt), name)
    if not out.ok:
        check(isinstance(out.exc, InvalidCookieSign), "altered cookie {!r}: {!r}", alt, out.exc)
    elif out.value is not None:
        eq(tuple(out.value), tuple(got), "altered cookie {!r}".format(alt))
    if c["kill"]:
        _, header = d.delete_cookie(**({} if c["dflt"] else {"cookie_name": name}))
        n, val, attr = attributes(header)
        eq(n, name, "name of the deleted cookie")
        import calendar
        check("expires" in attr, "a cookie is deleted without expiry: {}", header)
        at = calendar.timegm(time.strptime(attr["expires"], "%a, %d-%b-%Y %H:%M:%S GMT"))
        if at >= t0:
            fail("a deleted cookie is alive until {}", attr["expires"])
        if c["value"] and len(c["value"]) > 5:
            check(c["value"] not in SimpleCookie(header)[name].value, "deleted cookie has the value: {}", header)
    if alt != orig or any(x in c["value"] for x in "|:;"):
        t.nontriv("sym" if c["sym"] else "plain")
