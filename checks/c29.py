"""C29: A request that fails changes nothing and can be repeated."""
import requests
from hypothesis import strategies as st

from clock import Clock
from op import World, ctx, query_of, response
import many
from many import Setup
from side import Side, history, norm, parameters, requests_of, run, same, tables
from vt import attempt, check, test

RULE = ("Case = client configuration and a history of steps of one or several logins (discovery, registration, pushed and plain authorization requests, redirects, token, refresh, user info, logout, back-channel logout), with faults at generated places: no connection, no answer (before or after the provider did its part), 4xx/5xx pages, redirects, empty, cut, or garbled answers, also for the provider's keys. "
        "A second client runs the same history without faults. The failed step has to be reported as failed and to leave nothing behind; repeated, it has to have the same result, requests and records as without the fault; not repeated, everything else has to go on as if it had never been tried. Non-trivial: at least one fault struck.")
ASSUMPTIONS = ["a provider whose answer was lost answers the repeated request the same way", "how often keys are fetched is left to the key jar; garbled key sets are only tried where the key jar tries again"]
FAULTS = ["refuse", "refuse", "timeout", "timeout", "500", "503", "502", "404", "429", "redirect", "empty", "cut", "cut", "html", "bytes", "null", "list", "string"]


class Faults:
    """Strikes once, at the n:th request of the chosen kind"""

    def __init__(self, world):
        self.orig, self.plan, self.struck = world.dispatch, None, None
        world.dispatch = self

    def arm(self, kind, keys, n=0):
        self.plan, self.struck, self.left = (kind, keys), None, n

    def __call__(self, prep, kwargs):
        if self.plan is None:
            return self.orig(prep, kwargs)
        kind, keys = self.plan
        if prep.url.split("?")[0].endswith("/jwks.json") != keys:
            return self.orig(prep, kwargs)
        if self.left:
            self.left -= 1
            return self.orig(prep, kwargs)
        self.plan, self.struck = None, "{} at {}".format(kind, prep.url.split("?")[0])
        if kind == "refuse":
            raise requests.exceptions.ConnectionError("refused")
        res = self.orig(prep, kwargs)
        text = res.text
        if kind == "timeout":
            raise requests.exceptions.ReadTimeout("no answer")
        if kind in ("500", "503", "502", "404", "429"):
            new = response(int(kind), "<html>{}</html>".format(kind) if kind in ("502", "404") else "busy" if kind == "429" else {"error": "server_error"} if kind == "500" else "", "text/html" if kind in ("502", "404", "503") else "text/plain" if kind == "429" else "application/json")
        elif kind == "redirect":
            new = response(302, "", "text/html", headers={"location": "https://elsewhere.example.org/"})
        else:
            body = {"empty": "", "cut": text[:len(text) // 2], "html": "<html><body>Please log in</body></html>", "bytes": b"\xff\xfe\x00{", "null": "null", "list": "[]", "string": '"ok"'}[kind]
            new = response(res.status_code, body, "text/html" if kind == "html" else res.headers.get("content-type"))
        new.url, new.request = res.url, res.request
        return new


def snapshot(op, attrs=("codes", "at", "rt", "clients", "counter", "secret", "regs", "pushed")):
    lgs = [(lg, list(lg.ats), list(lg.rts), list(lg.id_tokens)) for lg in op.logins]
    return {a: (getattr(op, a).copy() if hasattr(getattr(op, a), "copy") else getattr(op, a)) for a in attrs if hasattr(op, a)}, lgs


def rollback(op, snap):
    for a in ("regs", "pars"):
        if a not in snap[0] and hasattr(op, a):
            delattr(op, a)
    for a, v in snap[0].items():
        setattr(op, a, v)
    for lg, ats, rts, idts in snap[1]:
        lg.ats, lg.rts, lg.id_tokens = ats, rts, idts
    del op.logins[len(snap[1]):]


@st.composite
def cases(draw):
    steps = []
    for i, s in enumerate(history(draw)):
        # several requests in one step would have to be repeated one by one
        new = [["redirect", s[1], "ok"], ["token", s[1], "ok"], ["userinfo", s[1], "ok"]] if s[0] == "finish" else [s]
        for x in new:
            fault = None
            if draw(st.integers(0, 2)) == 0:
                keys = draw(st.sampled_from([False, False, False, True]))
                fault = [draw(st.sampled_from(FAULTS[:9] if keys else FAULTS)), keys, draw(st.booleans()) if x[0] not in ("info", "register") else True]
            steps.append([x, fault])
    return dict(parameters(draw), steps=steps)


def comparable(side, out):
    r = {"value": norm(side, out.value)} if out.ok else {"exc": type(out.exc).__name__}
    r["requests"] = requests_of(side)
    r.update(tables(side))
    r.pop("stray")
    return r


def outcome(side, step):
    with side.w:
        out = attempt(run, side, step)
    return comparable(side, out), out


@test(cases(), quick=2500, thorough=20000)
def faults(c, t):
    with Clock() as clock:
        plain, hit = Side(c), Side(c)
        f = Faults(hit.w)
        strikes = 0
        for i, (step, fault) in enumerate(c["steps"]):
            if step[0] == "wait":
                clock.advance(step[1])
                continue
            if fault and step[0] == "begin" and fault[0] in ("500", "503", "502", "404", "429"):
                fault = None     # a provider that doesn't want pushed requests gets them the other way
            if fault:
                kind, keys, again = fault
                before = tables(hit)
                snap, dpop = snapshot(hit.op), hit.dpop
                f.arm(kind, keys)
                with hit.w:
                    out = attempt(run, hit, step)
                f.plan = None
                if f.struck:
                    strikes += 1
                    t.label(step[0] + ":" + kind + (":keys" if keys else ""))
                if f.struck and not (keys and out.ok):     # the keys may not have been needed
                    what = "step {} {} with {}".format(i, step, f.struck)
                    rollback(hit.op, snap)
                    requests_of(hit)
                    hit.dpop = dpop
                    check(not out.ok or (hasattr(out.value, "keys") and "error" in out.value), "{} looks like a success: {}", what, out.value)
                    after = tables(hit)
                    before.pop("stray"), after.pop("stray")
                    if step[0] in ("register", "reregister"):
                        for tb in (before, after):      # where to find the client is worked out beforehand
                            tb.pop("cb")
                            for k in ("callback", "redirect_uris", "hash2issuer", "post_logout_redirect_uris"):
                                tb["attrs"].pop(k)
                    for k in before:
                        same(after[k], before[k], what + ": " + k)
                    if not again:
                        continue
                else:
                    compare(c, i, step, outcome(plain, step)[0], comparable(hit, out), f.struck)
                    continue
            compare(c, i, step, outcome(plain, step)[0], outcome(hit, step)[0], "repeated after " + f.struck if fault else None)
        if strikes:
            t.nontriv("faults:%d" % min(strikes, 6))


def compare(c, i, step, want, got, note):
    for k in list(want) + [x for x in got if x not in want]:
        same(got.get(k), want.get(k), "step {} {}{}: {}".format(i, step, " (%s)" % note if note else "", k))


@st.composite
def journeys(draw):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    c = draw(many.cases(cold=True))
    steps = []
    for i in range(draw(st.integers(1, 4))):
        steps.append(["begin", d(0, 0, 1, 2), "u%d" % d(0, i)])
        for k in draw(st.lists(st.sampled_from(["finish", "finish", "finish", "redirect", "tokens", "userinfo", "refresh", "valid", "logout", "backchannel", "clear"]), min_size=1, max_size=4)):
            steps.append([k, draw(st.integers(0, 3)), None])
    c.update(ops=[], turns=[], steps=[[x, None if x[0] in ("logout", "backchannel", "clear") or draw(st.integers(0, 2)) == 0 else
                                       [d(*FAULTS[:9]), True, True, d(0, 0, 0, 1)] if draw(st.integers(0, 5)) == 0 else [d(*FAULTS), False, d(False, True, True), d(0, 0, 0, 0, 1, 1, 2, 3)]] for x in steps])
    return c


class Journey(Setup):
    def __init__(self, c, w):
        Setup.__init__(self, c, w)
        for conf in self.rph.client_configs.values():
            conf["backchannel_logout_uri"] = "https://rp.example.com/bc"
        self.mark = 0

    def run(self, x):
        """Returns something comparable"""
        k, i, sub = x
        if k == "begin":
            out = attempt(self.begin, i, None, sub)
            if out.ok:
                self.begun(i, out.value, sub)
        elif not self.logins:
            return None, None
        else:
            l = self.logins[i % len(self.logins)]
            self.c["ops"] = [[k, l["op"].i, sub]]
            l["doing"] = 0
            out = attempt(self.op(0))
            del l["doing"]
        return out, self.comparable(k, out)

    def comparable(self, k, out):
        lb = self.labels()
        if out.ok and k == "logout":
            for key, v in query_of(out.value["url"]):
                if key == "state":
                    lb[v] = "<logout>"
        r = {"value": self.norm(out.value, lb)} if out.ok else {"exc": type(out.exc).__name__}
        r["requests"] = [self.request(q, lb) for q in self.w.log[self.mark:] if q.path != "/jwks.json"]
        self.mark = len(self.w.log)
        r.update(self.tables(lb))
        return r

    def tables(self, lb=None):
        lb = lb or self.labels()
        rph = self.rph
        return {"logins": {str(l["n"]): self.session(l, lb) for l in self.logins}, "providers": sorted(rph.issuer2rp),
                "clients": {i: self.norm({a: getattr(ctx(x), a) for a in ("client_id", "client_secret", "issuer", "redirect_uris", "registration_response", "provider_info")}, lb) for i, x in rph.issuer2rp.items()}}


@test(journeys(), quick=2500, thorough=12000)
def handler_faults(c, t):
    with Clock():
        with World() as wa, World() as wb:
            plain, hit = Journey(dict(c), wa), Journey(dict(c), wb)
            f = Faults(wb)
            strikes = 0
            for i, (x, fault) in enumerate(c["steps"]):
                if fault and x[0] == "begin" and c["addon"] == "par" and fault[0] in ("500", "503", "502", "404", "429"):
                    fault = None
                note, earlier = None, []
                if fault:
                    kind, keys, again, n = fault
                    with wb:
                        before = hit.tables()
                        snaps = [(o, snapshot(o, ("codes", "at", "rt", "clients", "counter", "secret", "regs", "pushed", "pars", "next"))) for o in hit.ops]
                        f.arm(kind, keys, n)
                        out, got = hit.run(x)
                    f.plan = None
                    if out is None:
                        continue
                    if f.struck:
                        strikes += 1
                        t.label(x[0] + ":" + kind + (":keys" if keys else ""), "request:%d" % n)
                        note = "after " + f.struck
                    if f.struck and not (keys and out.ok):
                        what = "step {} {} {} with {}".format(i, x, [y[0] for y in c["steps"]], f.struck)
                        check(not out.ok or (hasattr(out.value, "keys") and "error" in out.value), "{} looks like a success: {}", what, out.value)
                        if not f.struck.endswith("/par"):
                            for o, s in snaps:
                                rollback(o, s)
                        after = hit.tables()
                        if x[0] == "finish":
                            # the steps before it are done
                            own = str(hit.logins[x[1] % len(hit.logins)]["n"])
                            before["logins"].pop(own), after["logins"].pop(own)
                        if f.struck.endswith("/par"):
                            # the client is ready by then
                            earlier = [q for q in got["requests"] if not str(q["url"]).endswith("/par") and "webfinger" not in str(q["url"]) and "elsewhere" not in str(q["url"])]
                            before, after = before["logins"], after["logins"]
                        same(after, before, what)
                        if not again and x[0] != "finish" and not f.struck.endswith("/par"):
                            continue
                    else:
                        with wa:
                            _, want = plain.run(x)
                        compare(c, i, x, want, got, note)
                        continue
                with wa:
                    _, want = plain.run(x)
                with wb:
                    _, got = hit.run(x)
                if want is None:
                    check(got is None, "harness")
                    continue
                if earlier:
                    got["requests"], want["requests"] = [sorted(x, key=str) for x in (earlier + got["requests"], want["requests"])]
                compare(c, i, x, want, got, note)
            if strikes:
                t.nontriv("faults:%d" % min(strikes, 6))
