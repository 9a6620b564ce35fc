"""What service definitions in the tests name: modifiers that leave a mark, and services of the application's own"""
from oidcrp.oidc.access_token import AccessToken
from oidcrp.oidc.authorization import Authorization
from oidcrp.oidc.refresh_access_token import RefreshAccessToken
from oidcrp.oidc.userinfo import UserInfo

LOG = []


def _mark(name, request_args, when, kw):
    service = kw.pop("service")
    LOG.append({"mark": name, "when": when, "service": service, "kw": {k: v for k, v in kw.items() if k != "post_args"}, "seen": dict(request_args)})
    request_args["x_trace"] = str(request_args.get("x_trace") or "") + name
    return request_args


def _pre(name):
    def f(request_args=None, post_args=None, **kw):
        return _mark(name, request_args, "pre", kw), {}
    f.__name__ = f.__qualname__ = "pre_" + name
    return f


def _post(name):
    def f(request_args=None, **kw):
        return _mark(name, request_args, "post", kw)
    f.__name__ = f.__qualname__ = "post_" + name
    return f


pre_a, pre_b, pre_c = _pre("a"), _pre("b"), _pre("c")
post_d, post_e, post_f = _post("d"), _post("e"), _post("f")


class OwnAuthorization(Authorization):
    pass


class OwnAccessToken(AccessToken):
    pass


class OwnRefreshAccessToken(RefreshAccessToken):
    pass


class OwnUserInfo(UserInfo):
    pass


class NotAService:
    def __init__(self, **kw):
        self.kw = kw
