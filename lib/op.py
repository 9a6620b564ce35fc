"""Simulated OpenID providers and builders for the relying party under test."""
import copy
import json
import time
from urllib.parse import parse_qsl, urlsplit

import world as W
from world import World, left_hash, response, sign  # noqa

# paths of two providers; if there is one the provider is on the host of the first
TENANTS = [["", ""], ["", ""], ["", ""], ["", "/t"], ["/a", "/a/b"], ["/x", "/xy"], ["/X", "/x"]]
RT = ["code", "id_token", "id_token token", "code id_token", "code token", "code id_token token"]


def query_of(url):
    return parse_qsl(urlsplit(url).query, keep_blank_values=True)


def single(pairs):
    """dict of single valued parameters; repeated names become lists"""
    res = {}
    for k, v in pairs:
        if k in res:
            res[k] = (res[k] if isinstance(res[k], list) else [res[k]]) + [v]
        else:
            res[k] = v
    return res


class Login:
    def __init__(self, op, request, n):
        self.op, self.request, self.n = op, request, n
        self.state, self.nonce = request.get("state"), request.get("nonce")
        self.redirect_uri, self.client_id = request.get("redirect_uri"), request.get("client_id")
        self.rt = request.get("response_type", "code")
        self.sub, self.sid, self.code = None, None, None
        self.ats, self.rts, self.id_tokens = [], [], []
        self.claims = {}


class OP:
    def __init__(self, world, i=0, issuer=None, alg="RS256", meta=None, endpoint_query="", places=None, tenant=""):
        self.world, self.i = world, i
        self.owner = "op%d" % i
        self.tenant = tenant           # path of a provider that shares its host (op0) with others
        self.issuer = issuer or ("https://op0.example.org" + tenant if tenant else "https://op%d.example.org" % i)
        host = urlsplit(self.issuer).netloc
        self.netloc = host + tenant
        self.base = "https://" + host + tenant
        self.places = places or {}     # endpoint name -> scheme and host, where it isn't the issuer's
        self.alg = alg
        self.meta = meta or {}
        self.endpoint_query = endpoint_query
        self.logins, self.codes, self.at, self.rt = [], {}, {}, {}
        self.clients = {}
        self.counter = 0
        self.suffix = ""          # added to every code/token
        self.code_suffix = self.rt_suffix = None    # instead of suffix for codes and refresh tokens
        self.expires_in = 3600
        self.idt_life = 3600
        self.give_refresh = True
        self.rotate = True
        self.refresh_idt = False
        self.token_hook = self.userinfo_hook = self.reg_hook = self.meta_hook = self.par_hook = self.jwks_hook = None
        self.secret = None
        self.par = {}
        for b in [self.base] + sorted(set(self.places.values())):
            world.serve(urlsplit(b).netloc, self.handle, tenant)
        world.ops[self.issuer] = self

    def ep(self, name):
        path = {"authorization_endpoint": "/authorize", "token_endpoint": "/token", "userinfo_endpoint": "/userinfo", "registration_endpoint": "/register",
                "end_session_endpoint": "/logout", "pushed_authorization_request_endpoint": "/par"}[name]
        return (self.places[name] + self.tenant if name in self.places else self.base) + path + self.endpoint_query

    def metadata(self):
        m = {"issuer": self.issuer, "jwks_uri": self.base + "/jwks.json",
             "response_types_supported": RT, "subject_types_supported": ["public", "pairwise"],
             "id_token_signing_alg_values_supported": ["RS256", "ES256", "HS256", "RS384", "PS256", "none"],
             "scopes_supported": ["openid", "profile", "email", "offline_access"],
             "token_endpoint_auth_methods_supported": ["client_secret_basic", "client_secret_post", "client_secret_jwt",
                                                       "private_key_jwt"],
             "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
             "token_endpoint_auth_signing_alg_values_supported": ["RS256", "HS256", "ES256"]}
        for n in ["authorization_endpoint", "token_endpoint", "userinfo_endpoint", "registration_endpoint",
                  "end_session_endpoint"]:
            m[n] = self.ep(n)
        m.update(self.meta)
        return {k: v for k, v in m.items() if v is not None}

    # -- HTTP ---------------------------------------------------------------
    def handle(self, req):
        p = req.path
        if p.endswith("/.well-known/openid-configuration"):
            return self.meta_hook(req) if self.meta_hook else response(200, self.metadata())
        if p == "/jwks.json":
            return self.jwks_hook(req) if self.jwks_hook else response(200, W.public_jwks(
                self.owner + "_rsa", self.owner + "_ec256", self.owner + "_ec384", self.owner + "_rsaenc", self.owner + "_ecenc"))
        if p == "/register":
            return self.reg_hook(req) if self.reg_hook else self.register(req)
        if p == "/token":
            return self.token_hook(req) if self.token_hook else self.token(req)
        if p == "/userinfo":
            return self.userinfo_hook(req) if self.userinfo_hook else self.userinfo(req)
        if p == "/par":
            return self.par_hook(req) if self.par_hook else None
        return None

    def register(self, req):
        body = json.loads(req.body)
        self.counter += 1
        cid = "cid-%d-%d" % (self.i, self.counter)
        secret = ("sec-%d-%d-" % (self.i, self.counter)) + "s" * 40
        res = dict(body, client_id=cid, client_secret=secret, client_secret_expires_at=0)
        self.clients[cid] = secret
        self.secret = secret
        return response(201, res)

    # -- authorization endpoint ------------------------------------------------
    def authorize(self, url, sub="u1", sid=None, **over):
        """Treat `url` as what the browser delivers. Returns (login, response dict)."""
        return self.authorize_params(single(query_of(url)), sub, sid, **over)

    def authorize_params(self, params, sub="u1", sid=None, **over):
        self.counter += 1
        n = "%d.%d" % (self.i, self.counter)
        lg = Login(self, params, n)
        lg.sub, lg.sid = sub, sid
        self.logins.append(lg)
        rts = set(lg.rt.split(" "))
        resp = {"state": lg.state}
        if "code" in rts:
            lg.code = "code-" + n + (self.suffix if self.code_suffix is None else self.code_suffix)
            self.codes[lg.code] = lg
            resp["code"] = lg.code
        if "token" in rts:
            resp["access_token"] = self.new_at(lg)
            resp["token_type"] = "Bearer"
            if self.expires_in is not None:
                resp["expires_in"] = self.expires_in
        if "id_token" in rts:
            resp["id_token"] = self.id_token(lg, at=resp.get("access_token"), code=resp.get("code"))
        resp.update(over)
        return lg, resp

    def new_at(self, lg):
        self.counter += 1
        tok = "at-%s-%d%s" % (lg.n, self.counter, self.suffix)
        lg.ats.append(tok)
        self.at[tok] = lg
        return tok

    def new_rt(self, lg):
        self.counter += 1
        tok = "rt-%s-%d%s" % (lg.n, self.counter, self.suffix if self.rt_suffix is None else self.rt_suffix)
        lg.rts.append(tok)
        self.rt[tok] = lg
        return tok

    def id_claims(self, lg, at=None, code=None, **extra):
        now = int(time.time())
        c = {"iss": self.issuer, "sub": lg.sub, "aud": [lg.client_id], "exp": now + self.idt_life, "iat": now}
        if lg.nonce is not None:
            c["nonce"] = lg.nonce
        if lg.sid:
            c["sid"] = lg.sid
        if at:
            c["at_hash"] = left_hash(at, self.alg)
        if code:
            c["c_hash"] = left_hash(code, self.alg)
        c.update(lg.claims)
        c.update(extra)
        return {k: v for k, v in c.items() if v is not None}

    def id_token(self, lg, at=None, code=None, **extra):
        c = self.id_claims(lg, at, code, **extra)
        c.setdefault("jti", "idt%d" % len(lg.id_tokens))     # no two are the same, also within a second
        tok = sign(c, self.alg, owner=self.owner, secret=self.secret)
        lg.id_tokens.append((tok, c))
        return tok

    # -- token endpoint ----------------------------------------------------------
    def token(self, req):
        p = req.params()
        gt = p.get("grant_type")
        if gt == "authorization_code":
            lg = self.codes.get(p.get("code"))
            if lg is None:
                return response(400, {"error": "invalid_grant"})
            res = {"access_token": self.new_at(lg), "token_type": "Bearer", "id_token": self.id_token(lg)}
            if self.give_refresh:
                res["refresh_token"] = self.new_rt(lg)
        elif gt == "refresh_token":
            lg = self.rt.get(p.get("refresh_token") or (req.headers.get("Authorization") or "")[7:])
            if lg is None:
                return response(400, {"error": "invalid_grant"})
            res = {"access_token": self.new_at(lg), "token_type": "Bearer"}
            if self.rotate:
                res["refresh_token"] = self.new_rt(lg)
            if self.refresh_idt:
                res["id_token"] = self.id_token(lg)
        elif gt == "client_credentials":
            self.counter += 1
            res = {"access_token": "cc-%d%s" % (self.counter, self.suffix), "token_type": "Bearer"}
        else:
            return response(400, {"error": "unsupported_grant_type"})
        if self.expires_in is not None:
            res["expires_in"] = self.expires_in
        return response(200, res)

    def userinfo(self, req):
        tok = (req.headers.get("Authorization") or "")[7:] or req.params().get("access_token")
        lg = self.at.get(tok)
        if lg is None:
            return response(401, {"error": "invalid_token"})
        return response(200, {"sub": lg.sub, "email": "%s@%s" % (lg.sub, lg.n), "via": tok})


DEF_SERVICES = {
    'web_finger': {'class': 'oidcrp.oidc.webfinger.WebFinger'},
    'discovery': {'class': 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery'},
    'registration': {'class': 'oidcrp.oidc.registration.Registration'},
    'authorization': {'class': 'oidcrp.oidc.authorization.Authorization'},
    'access_token': {'class': 'oidcrp.oidc.access_token.AccessToken'},
    'refresh_access_token': {'class': 'oidcrp.oidc.refresh_access_token.RefreshAccessToken'},
    'userinfo': {'class': 'oidcrp.oidc.userinfo.UserInfo'},
    'end_session': {'class': 'oidcrp.oidc.end_session.EndSession'},
}

PKCE = {"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                 "kwargs": {"code_challenge_length": 64, "code_challenge_method": "S256"}}}


def services(drop=()):
    return {k: copy.deepcopy(v) for k, v in DEF_SERVICES.items() if k not in drop}


def client_conf(op, rt="code", dynamic=False, client_id=None, secret=None, **extra):
    """Static (default) or dynamically registered client configuration for one provider."""
    rts = rt if isinstance(rt, list) else [rt]
    if dynamic:
        c = {"issuer": op.issuer, "client_preferences": {"response_types": rts, "scope": ["openid"],
                                                         "token_endpoint_auth_method": "client_secret_basic"}}
    else:
        cid = client_id or "client-%d" % op.i
        sec = secret or ("secret-%d-" % op.i + "x" * 40)
        op.clients[cid] = sec
        op.secret = sec
        c = {"issuer": op.issuer, "client_id": cid, "client_secret": sec,
             "redirect_uris": ["https://rp.example.com/cb%d" % op.i],
             "behaviour": {"response_types": rts, "scope": ["openid"],
                           "token_endpoint_auth_method": "client_secret_basic"}}
    c.update(extra)
    return c


def handler(confs, base_url="https://rp.example.com", drop=(), **kw):
    from oidcrp.rp_handler import RPHandler
    kj = kw.pop("keyjar", None)
    if kj is None:
        kj = W.keyjar_of("rp")
        kj.import_jwks({"keys": [W.key("rp_rsa").serialize(private=True), W.key("rp_ec256").serialize(private=True)]}, base_url)
    kw.setdefault("hash_seed", "seed-of-the-handler")
    kw.setdefault("services", services(drop))
    return RPHandler(base_url=base_url, client_configs=confs, keyjar=kj, **kw)


def ctx(client):
    return client.client_get("service_context")


def store_dump(client):
    """Comparable snapshot of the session store."""
    return {k: v for k, v in ctx(client).state._db.items()}
