"""C06: the access token handed out for a login is a current one."""
from hypothesis import strategies as st

import oidcrp.rp_handler  # noqa: F401
from clock import Clock
from op import OP, RT, World, client_conf, handler
from vt import attempt, check, eq, test

RULE = ("Case = a login (any flow, tokens from redirect and/or token endpoint, lifetimes absent/zero/negative/small/large, as number or text) "
        "followed by up to 6 refreshes and advances of a simulated clock, often to a boundary of a token's or ID Token's life; after every step the "
        "valid token and the authentication status are compared with a list of issued tokens. Non-trivial: at least two tokens or one that expired.")
ASSUMPTIONS = ["the clock seen through time.time/datetime is the one of the simulation"]

LIFE = st.one_of(st.none(), st.sampled_from([0, 1, 2, 5, 10, 60, 3600, 10 ** 9, -1, -3600]), st.integers(1, 100))
STEP = st.one_of(
    st.tuples(st.just("advance"), st.integers(0, 100)),
    st.tuples(st.just("advance"), st.sampled_from([0.5, 3600, 86400, 0.75])),
    st.tuples(st.just("to"), st.integers(0, 5), st.integers(-1, 1)),
    st.tuples(st.just("to"), st.integers(0, 5), st.integers(-1, 1)),
    st.tuples(st.just("refresh"), LIFE, st.one_of(st.none(), st.integers(1, 200)), st.booleans()),
    st.tuples(st.just("refresh"), LIFE, st.one_of(st.none(), st.integers(1, 200)), st.booleans()),
)


@st.composite
def cases(draw):
    return {"rt": draw(st.sampled_from(RT)), "collect": draw(st.booleans()), "front": draw(LIFE), "back": draw(LIFE),
            "front_delay": draw(st.sampled_from([0, 1, 7])), "text": draw(st.booleans()),
            "idt_front": draw(st.integers(8, 200)), "idt_back": draw(st.integers(1, 200)), "frac": draw(st.sampled_from([0.0, 0.25, 0.99])),
            "iat": draw(st.sampled_from([0, 0, 10, 100, 3000])), "userinfo": draw(st.booleans()), "steps": draw(st.lists(STEP, max_size=6))}


@test(cases(), quick=5000, thorough=80000)
def token_lifetimes(case, t):
    with World() as w, Clock(1_700_000_000 + case["frac"]) as clock:
        op = OP(w, 0)
        rh = handler({op.issuer: client_conf(op, case["rt"])}, drop=() if case["userinfo"] else ("userinfo",))
        # another login in between that must not matter
        o2 = rh.begin(op.issuer)
        rh.finalize(op.issuer, op.authorize(o2["url"], sub="zoe")[1])
        r = rh.begin(op.issuer)
        collect = case["collect"] and "code" in case["rt"].split(" ")
        op.expires_in = str(case["front"]) if case["text"] and case["front"] is not None else case["front"]
        op.idt_life = case["idt_front"]
        claims = op.id_claims

        def id_claims(*args, **extra):         # ID Tokens needn't be made at the moment they are sent
            return dict(claims(*args, **extra), iat=int(clock.now) - case["iat"])
        op.id_claims = id_claims
        lg, resp = op.authorize(r["url"])
        front_idt_exp = int(clock.now) + case["idt_front"]
        clock.advance(case["front_delay"])
        op.expires_in, op.idt_life = case["back"], case["idt_back"]
        out = attempt(rh.finalize, op.issuer, resp, behaviour_args={"collect_tokens": True} if collect else None)
        check(out.ok and "error" not in out.value, "login failed: {!r}", out)
        now = int(clock.now)
        cand = {}        # source -> (token, absolute expiry or None)
        idt_exp = None
        parts = case["rt"].split(" ")
        if "id_token" in parts:
            idt_exp = front_idt_exp
        if "token" in parts:
            cand["front"] = (resp["access_token"], None if case["front"] is None else now + case["front"])
        if "token" not in parts and "code" in parts or (collect and "token" in parts):
            cand["back"] = (lg.ats[-1], None if case["back"] is None else now + case["back"])
            idt_exp = now + case["idt_back"]

        def compare():
            now = int(clock.now)
            got = attempt(rh.get_valid_access_token, r["state"])
            forever = [c for c, e in cand.values() if e is None]
            alive = {c: e for c, e in cand.values() if e is not None and e > now}
            if forever:
                check(got.ok, "no valid token although one has no stated lifetime: {!r}", got)
                check(got.value[0] in forever and not got.value[1], "valid token {!r}, without lifetime {!r}", got, forever)
                t.label("indefinite")
            elif alive:
                check(got.ok, "no valid token although some are alive: {!r} (now {}, {!r})", got, now, cand)
                best = max(alive.values())
                check(alive.get(got.value[0]) == best and got.value[1] == best, "valid token {!r}, alive {!r}, now {}", got, alive, now)
                t.label("alive:%d" % len(alive))
            else:
                check(not got.ok, "expired token handed out: {!r} (now {}, {!r})", got, now, cand)
                t.label("none valid")
            if len(cand) > 1 or any(e is not None and e <= now for _, e in cand.values()):
                t.nontriv("tokens:%d" % len(cand))
            act = attempt(rh.has_active_authentication, r["state"])
            want = idt_exp is not None and now < idt_exp
            eq(act.value if act.ok else act, want, "active authentication (now {}, ID Token expires {})".format(now, idt_exp))
        compare()
        for step in case["steps"]:
            if step[0] == "advance":
                clock.advance(step[1])
            elif step[0] == "to":
                marks = sorted(set([e for _, e in cand.values() if e is not None] + ([idt_exp] if idt_exp else [])))
                marks = [m + step[2] for m in marks if m + step[2] >= clock.now and m < clock.now + 10 ** 7]
                if not marks:
                    continue
                clock.now = marks[step[1] % len(marks)] + 0.5
                t.label("at boundary %+d" % step[2])
            else:
                if not lg.rts:
                    t.label("no refresh token")
                    continue
                op.expires_in, op.refresh_idt, op.rotate = step[1], step[2] is not None, step[3]
                op.idt_life = step[2] or 0
                out = attempt(rh.refresh_access_token, r["state"])
                check(out.ok, "refresh failed: {!r}", out)
                now = int(clock.now)
                cand["refresh"] = (lg.ats[-1], None if step[1] is None else now + step[1])
                if step[2] is not None:
                    idt_exp = now + step[2]
                t.label("refresh")
            compare()
        check(attempt(rh.get_valid_access_token, o2["state"]).value is None or
              attempt(rh.get_valid_access_token, o2["state"]).value[0] not in [c for c, _ in cand.values()], "token of another login")
