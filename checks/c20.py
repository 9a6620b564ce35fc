"""C20: A client restored from its dump behaves like the original."""
from hypothesis import strategies as st

from clock import Clock
from op import ctx
from side import SETTINGS, Side, history, norm, parameters, requests_of, run, same, tables
from vt import attempt, eq, test

RULE = ("Case = client configuration (registration, response type, authentication, algorithms, request objects, PKCE, DPoP, pushed requests, logout) and a sequence of steps of one or several logins (also damaged responses, forged tokens and logout notifications) "
        "with dump points. At a dump point the client goes through json.dumps(dump()) into a client built from the same configuration, the simulated provider is copied, and from there on original and restored client run the same steps against their own copy; "
        "requests, results, decisions, look-ups and recorded sessions have to be the same up to fresh random values. Non-trivial: at least one dump point with steps after it.")
ASSUMPTIONS = ["the fresh client is built from the same configuration (test_40_rp_handler_persistent)", "cookies of the HTTP client are not part of the client's configuration state"]


@st.composite
def cases(draw):
    steps = history(draw, dumps=True)
    for _ in range(draw(st.integers(0, 2))):
        steps.insert(draw(st.integers(0, 3)), ["dump"])
    if draw(st.booleans()):
        steps.insert(draw(st.integers(2, 4)), ["set"] + list(draw(SETTINGS)))
    return dict(parameters(draw), services=draw(st.sampled_from([True, True, True, False])), blank=draw(st.sampled_from([False, False, True])), steps=steps)


@test(cases(), quick=2500, thorough=20000)
def restored(c, t):
    with Clock() as clock:
        orig = Side(c)
        orig.kinds = {}
        other = None
        dumps = after = 0
        for i, step in enumerate(c["steps"]):
            if step[0] == "dump":
                src = other or orig
                if step[1:] == [2]:
                    src = orig
                new = src.restored()
                other = new
                dumps += 1
                a, b = tables(orig), tables(other)
                for k in a:
                    same(b.get(k), a[k], "step {}: {} of the restored client".format(i, k))
                continue
            if step[0] == "wait":
                clock.advance(step[1])
                continue
            res = []
            for side in [orig, other] if other else [orig]:
                with side.w:
                    out = attempt(run, side, step)
                if out.ok:
                    r = {"value": norm(side, out.value)}
                else:
                    r = {"exc": type(out.exc).__name__}
                r["requests"] = requests_of(side)
                r.update(tables(side))
                res.append((r, out))
            if other:
                after += 1
                a, b = res[0][0], res[1][0]
                for k in list(a) + [x for x in b if x not in a]:
                    same(b.get(k), a.get(k), "step {} {}: {} of the restored client".format(i, step, k))
                t.label("after:" + step[0] + (":ok" if res[0][1].ok else ":" + type(res[0][1].exc).__name__))
        if dumps and after:
            t.nontriv("dumps:%d" % dumps)
        # the restored client is independent of the original
        if other and other.logins and c["dyn"]:
            before = tables(orig)
            with other.w:
                attempt(run, other, ["clear", 0])
                attempt(run, other, ["begin", "u9", None])
                ctx(other.client).behaviour["x"] = "y"
            eq(tables(orig), before, "the original after using the restored client")
