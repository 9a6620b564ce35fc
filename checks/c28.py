"""C28: Operations of different logins that overlap in time don't affect each other."""
import json

from hypothesis import strategies as st

from clock import Clock
from many import Setup, cases
from op import World, query_of
from turns import Schedule, load_all
from side import jwt_parts, same
from vt import attempt, check, eq, test

RULE = ("Case = providers, client configurations (static/dynamic, response type, authentication, PKCE, DPoP, pushed requests, request objects), logins brought to generated stages, and two to four operations, each on another login (or beginning a new one, also the first ones at a provider), "
        "which run in threads under a generated schedule that switches between them at network requests or after a generated number of lines of the library's code. "
        "Results, requests and everything recorded for each login are compared, up to fresh random values, with the same operations run one after the other; afterwards all logins are completed. Non-trivial: the schedule left an operation for another one before it was finished.")
ASSUMPTIONS = ["only one thread runs at a time, switches are at network requests or at lines of the library, not in the middle of a line", "each of the overlapping operations concerns another login",
               "which of several simultaneous first logins registers the client, and how often, is left open"]


def play(c, overlap):
    with World() as w:
        s = Setup(c, w)
        s.prepare()
        funcs = [s.op(i) for i in range(len(c["ops"]))]
        sch = Schedule(w, c["turns"] if overlap else [], lines=c["lines"] if overlap else False)
        ops = sch.run(funcs)
        for i, (kind, p, sub) in enumerate(c["ops"]):
            if kind == "begin" and ops[i].out.ok:
                l = s.begun(p, ops[i].out.value, sub)
                l["doing"] = i
        lb = s.labels()
        one_key(w)
        res = []
        for i, op in enumerate(ops):
            kind = c["ops"][i][0]
            r = {}
            if op.out.ok:
                v = op.out.value
                if kind in ("logout", "close"):
                    for k, x in query_of(v["url"]):
                        if k == "state":
                            lb[x] = "<logout>"
                r["value"] = s.norm(v, lb)
            else:
                r["exc"] = type(op.out.exc).__name__
            r["requests"] = [s.request(q, lb) for q in op.requests if q.path != "/jwks.json" and not (not c["warm"] and q.path in ("/.well-known/openid-configuration", "/register", "/.well-known/webfinger"))]
            res.append((op, r))
        tables = {l["n"]: attempt(s.session, l, lb) for l in s.logins}
        tables = {n: o.value if o.ok else type(o.exc).__name__ for n, o in tables.items()}
        # everything can still be completed
        finals = {}
        for l in s.logins:
            if l["stage"] == "begun" and ("doing" not in l or c["ops"][l["doing"]][0] in ("begin", "error", "bad")):
                o = attempt(s.rph.finalize, l["op"].issuer, dict(l["resp"]))
                finals[l["n"]] = s.norm(o.value, lb) if o.ok else type(o.exc).__name__
                if "doing" in l and c["ops"][l["doing"]][0] == "begin" and overlap:
                    check(o.ok and "error" not in o.value, "a login that was begun can't be completed: {!r} {}", o, o.value if o.ok else "")
                    eq(o.value["userinfo"]["sub"], l["lg"].sub, "user of the login")
        one_key(w)
        return res, tables, finals, sch, ops


def one_key(w):
    """What is bound to a key can only be used with that key"""
    keys = {}
    for r in w.log:
        if "dpop" in r.headers:
            hdr = jwt_parts(r.headers["dpop"])[0]
            keys.setdefault(r.netloc, set()).add(json.dumps(hdr["jwk"], sort_keys=True))
    for n, k in keys.items():
        eq(len(k), 1, "number of keys used for proofs at " + n)


@test(cases(), quick=900, thorough=15000)
def overlapping(c, t):
    overlap_and_compare(c, t)


@test(cases(cold=True), quick=500, thorough=8000)
def first_logins(c, t):
    overlap_and_compare(c, t)


@test(cases(lazy=True), quick=700, thorough=10000)
def first_uses(c, t):
    overlap_and_compare(c, t)


@test(cases(grow=True), quick=500, thorough=8000)
def another_provider(c, t):
    overlap_and_compare(c, t)


@st.composite
def pairs(draw):
    c = draw(cases(**draw(st.sampled_from([{}, {"cold": True}, {"lazy": True}, {"lazy": True}, {"grow": True}]))))
    if c["ops"][-1][0] == "begin" and len(c["ops"]) == 3:
        c["ops"].pop(0)
    c["ops"] = c["ops"][:2]
    c["lines"] = "writes"
    return c


@test(pairs(), quick=64, thorough=1500, shards=8)
def every_point(c, t):
    """One operation is interrupted at every place where it changes something, the other one runs to its end"""
    load_all()
    with Clock():
        alone = play(c, False)
        for k in range(1, 250):
            one = dict(c, turns=[[0, k, True]] + [[1, 10 ** 9]] * 60)
            got = play(one, True)
            compare(one, t, alone, got)
            if got[3].switches == 0 and k > 1:
                break      # there are no more such places
        t.label("points:%d0" % (k // 10))


def overlap_and_compare(c, t):
    load_all()
    with Clock():
        compare(c, t, play(c, False), play(c, True))


def compare(c, t, alone, overlapping):
    want, wtab, wfin, _, _ = alone
    got, gtab, gfin, sch, ops = overlapping
    for i, ((wo, w), (go, g)) in enumerate(zip(want, got)):
        what = "{} (operation {} of {}, {})".format(c["ops"][i][0], i, [x[0] for x in c["ops"]], "lines" if c["lines"] else "requests")
        if ("exc" in w) != ("exc" in g):
            check(False, "{}: alone {!r}, overlapping {!r}", what, wo.out, go.out)
        same(g, w, what)
        t.label(c["ops"][i][0] + (":ok" if go.out.ok else ":" + type(go.out.exc).__name__))
    for n in wtab:
        same(gtab.get(n), wtab[n], "what is recorded for login {} after {}".format(n, [x[0] for x in c["ops"]]))
    same(gfin, wfin, "logins that are completed afterwards")
    if sch.switches:
        t.nontriv("switches:%d" % min(sch.switches, 8), "lines" if c["lines"] else "requests")
