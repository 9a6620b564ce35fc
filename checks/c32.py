"""C32: Operations that overlap on one login lose nothing of it."""
import itertools
import json

from hypothesis import strategies as st

from clock import Clock
from many import Setup
from op import TENANTS, World, query_of, response
from turns import Schedule, load_all
from side import same
from vt import Violation, attempt, check, test

RULE = ("Case = client configuration (response type, static/dynamic, authentication, PKCE, DPoP), one login that is about to be completed or is completed, another login of the same client, and two or three operations, most of them on the first login "
        "(completing it twice or together with an error or a forged response; or user info requests, or a refresh and a user info request, with logouts, notifications, questions about token and activity), run in threads under a generated schedule that switches at network requests "
        "or after a generated number of lines of the library's code. Oracle: there is an order in which the same operations, run one after the other, have the same results, requests, records and look-ups and the same later refresh, logout and clearing. "
        "Non-trivial: the schedule left an operation for another one before it was finished.")
ASSUMPTIONS = ["only one thread runs at a time, switches are at network requests or at lines of the library, not in the middle of a line",
               "the provider redeems a code once", "two refreshes, a refresh with several user info requests, or completing and using a login at the same time, have no defined outcome and are not generated"]

USES = ["userinfo", "userinfo", "logout", "logout", "close", "valid", "active", "backchannel"]


@st.composite
def cases(draw, every=False):
    d = lambda *x: draw(st.sampled_from(x))  # noqa
    stage = d("begun", "done", "done", "done")
    n = 2 if every else d(2, 2, 3)
    if stage == "begun":
        ops = [["finish", 0]] + [[d("finish", "finish", "error", "bad"), 0] for _ in range(n - 1)]
    else:
        first = d("refresh", "refresh", "refresh", "userinfo", "logout")
        ops = [[first, 0]] + [[d(*USES), d(0, 0, 0, 1)] if not (i and d(False, False, True)) else ["refresh", 1] for i in range(n - 1)]
    if ["refresh", 0] in ops and ops.count(["userinfo", 0]) > 1:
        ops[2] = ["valid", 0]     # which of two answers is recorded depends on which comes last, not on which was asked for first
    ops = draw(st.permutations(ops))
    lines = d(True, "writes", "writes", False) if not every else "writes"
    if d(True, True, False):
        a = draw(st.integers(0, n - 1))
        turns = [[a, 10 ** 9]] * d(0, 0, 1, 2, 3) + [[a, draw(st.integers(1, d(20, 60, 200, 600) if lines is True else d(10, 20, 60)))]] + [[draw(st.integers(0, n - 1)), 10 ** 9]] * d(20, 6, 2, 1)
    else:
        turns = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(1, d(3, 40, 200))), min_size=3, max_size=40))
    return {"tenants": draw(st.sampled_from(TENANTS)), "dyn": d(False, True), "rt": [d("code", "code", "code", "code id_token", "id_token token", "id_token")] * 3, "method": d("client_secret_basic", "private_key_jwt"),
            "alg": d(None, "ES256"), "addon": d(None, None, "pkce", "dpop"), "jar": None, "warm": True, "by": "key", "more": d(0, 1), "stage": stage, "lines": lines, "turns": [list(x) for x in turns],
            "ops": [[k, w, "alice"] for k, w in ops]}


class Login(Setup):
    """One login that the operations are about, and another one of the same client"""

    def prepare(self):
        c = self.c
        for o in self.ops:
            used = set()

            def once(req, o=o, used=used):
                code = dict(req.form).get("code")
                if code and code in used:
                    return response(400, {"error": "invalid_grant"})
                used.add(code)
                return o.token(req)
            o.token_hook = once
        for sub in ("alice", "bob"):
            l = self.begun(0, self.begin(0, None, sub), sub)
            if c["stage"] == "done" or sub == "bob":
                out = self.rph.finalize(l["op"].issuer, dict(l["resp"]))
                check("error" not in out, "login fails: {}", out)
                l["stage"] = "done"

    def op(self, i):
        l = self.logins[self.c["ops"][i][1]]
        for x in self.logins:
            x.pop("doing", None)
        l["doing"] = i
        func = Setup.op(self, i)
        return func


def play(c, overlap=False, order=()):
    with World() as w:
        s = Login(dict(c, ops=[[k, x, sub] for k, x, sub in c["ops"]]), w)
        s.prepare()
        funcs = [s.op(i) for i in range(len(c["ops"]))]
        switches = 0
        if overlap:
            sch = Schedule(w, c["turns"], lines=c["lines"])
            done = [(op.out, op.requests) for op in sch.run(funcs)]
            switches = sch.switches
        else:
            done = [None] * len(funcs)
            for i in order:
                mark = len(w.log)
                out = attempt(funcs[i])
                done[i] = (out, list(w.log[mark:]))
        lb = s.labels()
        outs = []
        ends = []
        for i, (out, reqs) in enumerate(done):
            r = {}
            if out.ok:
                if c["ops"][i][0] in ("logout", "close"):
                    for k, x in query_of(out.value["url"]):
                        if k == "state":
                            lb[x] = "<logout %d>" % i
                            ends.append((x, c["ops"][i][1]))
                r["value"] = s.norm(out.value, lb)
            else:
                r["exc"] = type(out.exc).__name__
            r["requests"] = [s.request(q, lb) for q in reqs if q.path != "/jwks.json"]
            outs.append(r)
        rph = s.rph
        state = rph.issuer2rp[s.ops[0].issuer].client_get("service_context").state
        res = {"operations": outs, "records": [s.session(l, lb) for l in s.logins], "look-ups": [], "later": []}
        for x, n in ends:
            o = attempt(state.get_state_by_logout_state, x)
            res["look-ups"].append(s.norm(o.value, lb) if o.ok else type(o.exc).__name__)
        for l in s.logins:
            o = attempt(state.get_state_by_sub, l["lg"].sub)
            res["look-ups"].append(s.norm(o.value, lb) if o.ok else type(o.exc).__name__)
        # what the logins are good for afterwards
        for l in s.logins:
            for what, f in (("valid", rph.get_valid_access_token), ("active", rph.has_active_authentication), ("refresh", rph.refresh_access_token), ("userinfo", rph.get_user_info), ("logout", rph.logout)):
                mark = len(w.log)
                o = attempt(f, l["state"])
                r = {"op": what, "requests": [s.request(q, lb) for q in w.log[mark:] if q.path != "/jwks.json"]}
                if o.ok and what == "logout":
                    lb.update({x: "<later>" for k, x in query_of(o.value["url"]) if k == "state"})
                r["value"] = s.norm(o.value, lb) if o.ok else type(o.exc).__name__
                res["later"].append(r)
            rph.clear_session(l["state"])
            left = [k for k, v in state._db.items() if l["state"] in k or l["state"] in str(v)]
            res["later"].append(s.norm(sorted(left), lb))
        return res, switches, outs


def judge(c, t, orders, got):
    res, switches, outs = got
    res = json.loads(json.dumps(res, default=str))
    first = []
    for order in itertools.permutations(range(len(c["ops"]))):
        if order not in orders:
            orders[order] = json.loads(json.dumps(play(c, order=order)[0], default=str))
        try:
            same(res, orders[order], "")
        except Violation as err:
            first.append("in order {}: {}".format("".join(map(str, order)), str(err)[-300:]))
        else:
            t.label("order:" + "".join(map(str, order)))
            break
    else:
        check(False, "overlapping {} ({}) is like no order of them: {}", [x[0] for x in c["ops"]], "lines" if c["lines"] else "requests", "; ".join(first))
    for (kind, who, _), o in zip(c["ops"], outs):
        t.label(kind + (":ok" if "exc" not in o else ":" + o["exc"]))
    if switches:
        t.nontriv("switches:%d" % min(switches, 8), "lines" if c["lines"] else "requests")


@test(cases(), quick=1200, thorough=20000)
def one_login(c, t):
    load_all()
    with Clock():
        judge(c, t, {}, play(c, True))


@test(cases(every=True), quick=64, thorough=1500, shards=8)
def every_point(c, t):
    """One operation is interrupted at every place where it changes something, the other one runs to its end"""
    load_all()
    with Clock():
        orders = {}
        for k in range(1, 250):
            one = dict(c, turns=[[0, k, True]] + [[1, 10 ** 9]] * 60)
            got = play(one, True)
            judge(one, t, orders, got)
            if got[1] == 0 and k > 1:
                break
        t.label("points:%d0" % (k // 10))
