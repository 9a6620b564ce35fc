"""A clock under the control of a test: time.time and datetime.now/utcnow as seen by the library and its dependencies."""
import datetime as _dt
import sys
import time

_real_time = time.time
_real_datetime = _dt.datetime


class _FakeMeta(type(_real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)


class FakeDateTime(_real_datetime, metaclass=_FakeMeta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(time.time(), _dt.timezone.utc).replace(tzinfo=None)


class Clock:
    def __init__(self, start=1_700_000_000.25):
        self.now = start
        self._undo = []

    def __call__(self):
        return self.now

    def advance(self, secs):
        self.now += secs

    def __enter__(self):
        import cryptojwt.jwt  # noqa: F401  what is imported later would see the real clock
        import oidcrp.oauth2.add_on.dpop  # noqa: F401
        import oidcrp.rp_handler  # noqa: F401
        import oidcmsg.oidc.session  # noqa: F401
        time.time = self
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] in ("oidcrp", "oidcmsg", "cryptojwt") and mod is not None:
                for k, v in list(vars(mod).items()):
                    if v is _real_datetime:
                        setattr(mod, k, FakeDateTime)
                        self._undo.append((mod, k, v))
                    elif v is _real_time:
                        setattr(mod, k, self)
                        self._undo.append((mod, k, v))
        return self

    def __exit__(self, *a):
        time.time = _real_time
        for mod, k, v in self._undo:
            setattr(mod, k, v)
        self._undo = []
