"""A simulated internet: requests' transport is replaced by an in-process dispatcher to simulated providers."""
import io
import json
import os
from urllib.parse import parse_qsl, urlsplit

import requests
import requests.adapters
from requests.structures import CaseInsensitiveDict

from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar

HERE = os.path.dirname(os.path.abspath(__file__))

with open(os.path.join(HERE, "keys.json")) as _f:
    RAW_KEYS = json.load(_f)     # name -> private JWK


class Unreachable(requests.exceptions.ConnectionError):
    pass


class Req:
    """A recorded request."""

    def __init__(self, prep, kwargs):
        self.method, self.url, self.headers = prep.method, prep.url, CaseInsensitiveDict(prep.headers)
        body = prep.body
        self.body = body.decode("utf-8") if isinstance(body, bytes) else (body or "")
        self.kwargs = kwargs
        u = urlsplit(self.url)
        self.base = "{}://{}{}".format(u.scheme, u.netloc, u.path)
        self.netloc, self.path, self.query_string = u.netloc, u.path, u.query

    @property
    def query(self):
        return parse_qsl(self.query_string, keep_blank_values=True)

    @property
    def form(self):
        return parse_qsl(self.body, keep_blank_values=True)

    def params(self):
        """Parameters as a server would see them (single valued)."""
        return dict(self.form if self.method == "POST" else self.query)

    def __repr__(self):
        return "{} {} {!r} {!r}".format(self.method, self.url, dict(self.headers), self.body)


def response(status=200, body="", ctype="application/json", headers=None):
    r = requests.Response()
    r.status_code = status
    if not isinstance(body, (str, bytes)):
        body = json.dumps(body)
    if isinstance(body, str):
        body = body.encode("utf-8", "surrogatepass")
    r.raw = io.BytesIO(body)
    r._content = body
    r.headers = CaseInsensitiveDict(headers or {})
    if ctype is not None:
        r.headers["content-type"] = ctype
    r.encoding = "utf-8"
    r.reason = "X"
    return r


class World:
    """netloc -> handler(Req) -> requests.Response. Only one world is active at a time."""

    current = None

    def __init__(self):
        self.handlers = {}
        self.log = []
        self.ops = {}

    def __enter__(self):
        World.current = self
        return self

    def __exit__(self, *a):
        World.current = None

    def serve(self, netloc, handler, prefix=""):
        self.handlers.setdefault(netloc, {})[prefix] = handler

    def dispatch(self, prep, kwargs):
        req = Req(prep, kwargs)
        self.log.append(req)
        on_host = self.handlers.get(req.netloc)
        if on_host is None:
            raise Unreachable("no such host {}".format(req.netloc))
        fits = [p for p in on_host if not p or req.path == p or req.path.startswith(p + "/")]
        prefix = max(fits, key=len) if fits else ""
        req.netloc, req.path = req.netloc + prefix, req.path[len(prefix):]       # as seen by a provider that shares the host
        res = on_host[prefix](req) if fits else None
        if res is None:
            res = response(404, "not found", "text/plain")
        if isinstance(res, Exception):
            raise res
        res.url = req.url
        res.request = prep
        return res

    def since(self, mark, netloc=None, path=None):
        return [r for r in self.log[mark:] if (netloc is None or r.netloc == netloc) and (path is None or r.path == path)]


def _send(self, request, **kwargs):
    if World.current is None:
        raise Unreachable("no world active: {}".format(request.url))
    return World.current.dispatch(request, kwargs)


requests.adapters.HTTPAdapter.send = _send

# Speed only: loading an RSA private key validates it every time (45 ms); remember the result per key.
import cryptojwt.jwk.rsa as _rsa  # noqa: E402

_rsa_orig, _rsa_memo = _rsa.rsa_construct_private, {}


def _rsa_cached(numbers):
    k = tuple(sorted(numbers.items()))
    if k not in _rsa_memo:
        _rsa_memo[k] = _rsa_orig(numbers)
    return _rsa_memo[k]


_rsa.rsa_construct_private = _rsa_cached

_key_cache = {}


def key(name):
    if name not in _key_cache:
        _key_cache[name] = key_from_jwk_dict(dict(RAW_KEYS[name]), private=True)
    return _key_cache[name]


def public_jwks(*names):
    return {"keys": [key(n).serialize(private=False) for n in names]}


ALG_KEY = {"RS": "rsa", "PS": "rsa", "ES256": "ec256", "ES384": "ec384", "ES512": "ec521"}


def kname(owner, alg):
    return "{}_{}".format(owner, ALG_KEY.get(alg) or ALG_KEY[alg[:2]])


def sign(claims, alg, owner=None, secret=None, kid=True, keyobj=None, headers=None):
    """Compact JWS over claims by `owner`'s key for alg (or with a symmetric secret)."""
    payload = json.dumps(claims)
    hdr = dict(headers or {})
    if alg == "none":
        return JWS(payload, alg="none").sign_compact([])
    if keyobj is None:
        if alg.startswith("HS"):
            from cryptojwt.jwk.hmac import SYMKey
            keyobj = SYMKey(key=secret, alg=alg)
        else:
            keyobj = key(kname(owner, alg))
    j = JWS(payload, alg=alg, **hdr)
    if not kid:
        import copy
        keyobj = copy.copy(keyobj)
        keyobj.kid = ""
    return j.sign_compact([keyobj])


def b64(data):
    import base64
    return base64.urlsafe_b64encode(data).decode().rstrip("=")


def left_hash(value, alg):
    """Spec: left half of the hash of the ASCII value, hash as in the alg."""
    import hashlib
    h = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}[alg[-3:]](value.encode()).digest()
    return b64(h[:len(h) // 2])


def keyjar_of(owner, issuer_id=""):
    kj = KeyJar()
    kj.import_jwks({"keys": [key(owner + "_rsa").serialize(private=True), key(owner + "_ec256").serialize(private=True)]}, issuer_id)
    return kj
