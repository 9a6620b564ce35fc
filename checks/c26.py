"""C26: Session checks carry the login's own newest ID Token."""
import world as W

from hypothesis import strategies as st

from op import OP, TENANTS, World, client_conf, ctx, handler, query_of, services, single
from vt import attempt, check, eq, test

RULE = ("Case = two providers, a history of logins (generated users, response types), refreshes with and without ID Token, failed responses, cleared logins, session checks and identity checks; "
        "every check request is compared with a table of the ID Tokens each login received, as they were on the wire. Non-trivial: several logins with ID Tokens, or a login with several ID Tokens, before the check.")
ASSUMPTIONS = ["the services have no endpoint, the request is taken from construct() and from its serialisation", "the identity check message demands an access token, which the caller supplies"]

OPS = st.one_of(st.tuples(st.just("login"), st.integers(0, 1), st.sampled_from(["u1", "u2", "ü \"x\" {'a': 1}"])), st.tuples(st.just("login"), st.integers(0, 1), st.sampled_from(["u1", "u2"])),
                st.tuples(st.just("begin"), st.integers(0, 1)), st.tuples(st.just("refresh"), st.integers(0, 5), st.booleans()), st.tuples(st.just("refresh"), st.integers(0, 5), st.booleans()),
                st.tuples(st.just("bad refresh"), st.integers(0, 5)),
                st.tuples(st.just("check"), st.integers(0, 5), st.sampled_from(["check_session", "check_session", "check_id"])), st.tuples(st.just("check"), st.integers(0, 5), st.just("check_session")),
                st.tuples(st.just("clear"), st.integers(0, 5)))


@st.composite
def cases(draw):
    return {"tenants": draw(st.sampled_from(TENANTS)), "rt": [draw(st.sampled_from(["code", "code", "id_token", "id_token token", "code id_token", "code token", "code id_token token"])) for _ in range(2)],
            "alg": draw(st.sampled_from(["RS256", "ES256", "HS256"])), "dyn": draw(st.booleans()), "pars": draw(st.sampled_from([None, {}, {"x": "y"}, {"client_id": "the caller's", "x": ["a b", "c"]}])),
            "ops": [["login", 0, "u1"]] + [list(x) for x in draw(st.lists(OPS, min_size=2, max_size=10))]}


@test(cases(), quick=1500, thorough=25000)
def session_checks(c, t):
    with World() as w:
        ops = [OP(w, i, alg=c["alg"], tenant=c["tenants"][i]) for i in (0, 1)]
        confs = {}
        for o in ops:
            conf = client_conf(o, c["rt"][o.i], dynamic=c["dyn"])
            conf["client_preferences" if c["dyn"] else "behaviour"]["id_token_signed_response_alg"] = c["alg"]
            confs["op%d" % o.i] = conf
        srv = services()
        srv["check_session"] = {"class": "oidcrp.oidc.check_session.CheckSession"}
        srv["check_id"] = {"class": "oidcrp.oidc.check_id.CheckID"}
        rph = handler(confs, services=srv)
        logins = []
        for op in c["ops"]:
            if op[0] in ("login", "begin"):
                o = ops[op[1]]
                begun = rph.begin("op%d" % op[1])
                l = {"state": begun["state"], "op": o, "alive": True, "idt": None, "n": 0, "lg": None}
                logins.append(l)
                if op[0] == "login":
                    lg, resp = o.authorize(begun["url"], sub=op[2])
                    out = rph.finalize(o.issuer, resp)
                    check("error" not in out, "login fails: {}", out)
                    l.update(lg=lg, idt=lg.id_tokens[-1][0] if lg.id_tokens else None, n=len(lg.id_tokens))
                continue
            l = logins[op[1] % len(logins)]
            o, lg = l["op"], l["lg"]
            if not l["alive"]:
                continue
            if op[0] == "clear":
                rph.clear_session(l["state"])
                l["alive"] = False
            elif op[0] in ("refresh", "bad refresh"):
                if lg is None or not lg.rts:
                    continue
                if op[0] == "bad refresh":
                    o.token_hook = lambda req, o=o, lg=lg: W.response(400, {"error": "invalid_grant", "id_token": lg.id_tokens[0][0]})
                    attempt(rph.refresh_access_token, l["state"])
                    o.token_hook = None
                    continue
                o.refresh_idt = op[2]
                rph.refresh_access_token(l["state"])
                if op[2]:
                    l["idt"] = lg.id_tokens[-1][0]
                    l["n"] += 1
            else:
                service = rph.issuer2rp[o.issuer].client_get("service", op[2])
                args = dict(c["pars"]) if c["pars"] is not None else None
                if op[2] == "check_id":
                    args = dict(args or {}, access_token="at")
                given = None if args is None else dict(args)
                out = attempt(service.construct, request_args=args, state=l["state"])
                check(out.ok, "{} request: {!r}", op[2], out)
                got = dict(out.value.to_dict())
                eq(got.get("id_token"), l["idt"], "{} of login {} ({} ID Tokens so far)".format(op[2], l["state"], l["n"]))
                if l["idt"]:
                    form = single(query_of("https://x?" + out.value.to_urlencoded()))
                    eq(form.get("id_token"), l["idt"], "serialised " + op[2])
                for k, v in (given or {}).items():
                    eq(got.get(k), v, "what the caller gave")
                t.label(op[2], "none" if not l["idt"] else "tokens:%d" % min(l["n"], 4))
                if l["idt"] and (l["n"] > 1 or len([x for x in logins if x["idt"]]) > 1):
                    t.nontriv()
