"""C04: the session store behaves as a map with consistent reverse lookups."""
import json

from hypothesis import strategies as st
from oidcmsg.message import Message
from oidcmsg.oidc import AuthorizationRequest, AuthorizationResponse

from oidcrp.state_interface import InMemoryStateDataBase, State, StateInterface
from vt import attempt, check, eq, test

RULE = ("Case = a history of up to 40 operations (create, store, cross-reference, remove, reload from dump, queries) over 4 keys and 4 reference "
        "values that collide on purpose; after every operation all records and references are compared with a dictionary model. "
        "Non-trivial: at least one removal or rebinding of a reference or overwritten record.")
ASSUMPTIONS = ["session keys do not have the form of a cross reference (__x__, ==x==, ..x.., ::x::, refxref)",
               "empty values are not stored (the message classes drop them)"]

TYPES = ["auth_request", "auth_response", "token_response", "refresh_token_request", "refresh_token_response", "user_info"]
XT = ["nonce", "logout state", "session id", "subject id"]
SETTER = {"nonce": "store_nonce2state", "logout state": "store_logout_state2state", "session id": "store_sid2state", "subject id": "store_sub2state"}
GETTER = {"nonce": "get_state_by_nonce", "logout state": "get_state_by_logout_state", "session id": "get_state_by_sid",
          "subject id": "get_state_by_sub"}

text = st.one_of(st.sampled_from(["a", "b", "1", "a b", "\u00e9", "[", "{\"x\":1}", "null"]), st.text(min_size=1, max_size=6))
VALUE = st.recursive(st.one_of(text, st.integers(-5, 5), st.booleans()),
                     lambda c: st.one_of(st.lists(c, min_size=1, max_size=3), st.dictionaries(st.text("abc", min_size=1, max_size=3), c, min_size=1, max_size=2)),
                     max_leaves=4)
PARAMS = ["access_token", "p", "q", "id_token", "__verified_id_token", "state", "code", "__expires_at"]
ITEM = st.dictionaries(st.sampled_from(PARAMS), VALUE, min_size=0, max_size=4)

KEY = st.sampled_from([0, 0, 1, 1, 2, 3])
XV = st.sampled_from(["x", "y", "x y", "u/\u00e9|=="])
OPS = st.one_of(
    st.tuples(st.just("create"), st.integers(0, 3), st.sampled_from(["https://a.example", "https://b.example/x"])),
    st.tuples(st.just("new"), st.integers(0, 3), st.sampled_from(["https://a.example", "https://b.example/x"])),
    st.tuples(st.just("store"), KEY, st.sampled_from(TYPES), ITEM, st.sampled_from(["message", "json", "dict", "class"])),
    st.tuples(st.just("ref"), KEY, st.sampled_from(XT), XV),
    st.tuples(st.just("ref"), KEY, st.sampled_from(XT), XV),
    st.tuples(st.just("remove"), KEY),
    st.tuples(st.just("reload"),),
    st.tuples(st.just("args"), KEY, st.lists(st.sampled_from(PARAMS), max_size=4, unique=True), st.lists(st.sampled_from(TYPES), max_size=4),
              st.booleans(), st.dictionaries(st.sampled_from(PARAMS), text, max_size=2)),
    st.tuples(st.just("arg"), KEY, st.lists(st.sampled_from(PARAMS), max_size=4, unique=True), st.sampled_from(TYPES),
              st.booleans(), st.dictionaries(st.sampled_from(PARAMS), text, max_size=2)),
)
BASE = ["k", "k2", "K", "st\u00e4te 1"]


def norm(d):
    return json.loads(Message(**d).to_json())


def pick(d, parameter, orig):
    if not orig and "__verified_" + parameter in d:
        return True, d["__verified_" + parameter]
    return parameter in d, d.get(parameter)


HISTORY = st.one_of(st.lists(OPS, min_size=1, max_size=8), st.lists(OPS, min_size=12, max_size=40), st.lists(OPS, min_size=12, max_size=40))


@test(st.fixed_dictionaries({"ops": HISTORY, "start": st.integers(0, 4)}), quick=12000, thorough=150000)
def store_as_map(case, t):
    si = StateInterface()
    keys = list(BASE)
    recs, refs = {}, {}
    removed = rebound = overwritten = 0
    gone = set()
    for k in keys[:case["start"]]:
        si.create_state("https://a.example", k)
        recs[k] = {"iss": "https://a.example"}
    for op in case["ops"]:
        name = op[0]
        t.label("op:" + name)
        if name in ("create", "new"):
            if name == "create":
                k = si.create_state(op[2], keys[op[1]])
                eq(k, keys[op[1]], "key of the created state")
            else:
                k = si.create_state(op[2])
                check(isinstance(k, str) and len(k) >= 32 and k not in recs and k not in gone, "created key {!r} is not new", k)
                keys[op[1]] = k
            if k in recs:
                overwritten += 1
            recs[k] = {"iss": op[2]}
        elif name == "store":
            k, typ, item, how = keys[op[1]], op[2], dict(op[3]), op[4]
            if k not in recs:
                continue
            if how == "message":
                given = Message(**item)
            elif how == "class":
                item = {x: v for x, v in item.items() if x in ("p", "q", "__expires_at")}
                given = AuthorizationResponse(**item)
            elif how == "json":
                given = Message(**item).to_json()
            else:
                given = norm(item)
            if not item:
                continue
            want = norm(item)
            si.store_item(given, typ, k)
            if typ in recs[k]:
                overwritten += 1
            recs[k][typ] = want
        elif name == "ref":
            k = keys[op[1]]
            if k not in recs:
                continue
            if refs.get((op[2], op[3]), k) != k:
                rebound += 1
            getattr(si, SETTER[op[2]])(op[3], k)
            refs[(op[2], op[3])] = k
        elif name == "remove":
            k = keys[op[1]]
            if k in recs:
                si.remove_state(k)
                del recs[k]
                gone.add(k)
                refs = {x: v for x, v in refs.items() if v != k}
                removed += 1
            else:
                attempt(si.remove_state, k)
        elif name == "reload":
            si2 = StateInterface()
            si2.load(json.loads(json.dumps(si.dump())))
            si = si2
        elif name == "args":
            k = keys[op[1]]
            if k not in recs:
                check(not attempt(si.multiple_extend_request_args, {}, k, op[2], op[3], op[4]).ok, "arguments collected from an unknown session")
                continue
            want = dict(op[5])
            for typ in op[3]:
                for p in op[2]:
                    has, v = pick(recs[k].get(typ, {}), p, op[4])
                    if has:
                        want[p] = v
            got = si.multiple_extend_request_args(dict(op[5]), k, op[2], op[3], op[4])
            eq(plain(got), want, "collected parameters {} from {}".format(op[2], op[3]))
        elif name == "arg":
            k = keys[op[1]]
            want = dict(op[5])
            if k in recs:
                for p in op[2]:
                    has, v = pick(recs[k].get(op[3], {}), p, op[4])
                    if has:
                        want[p] = v
            got = si.extend_request_args(dict(op[5]), Message, op[3], k, op[2], op[4])
            eq(plain(got), want, "collected parameters {} from {}".format(op[2], op[3]))
        # -- compare everything ---------------------------------------------
        for k in set(keys) | set(BASE) | gone:
            if k in recs:
                eq(si.get_iss(k), recs[k]["iss"], "issuer of " + k)
                for typ in TYPES:
                    out = attempt(si.get_item, Message, typ, k)
                    if typ in recs[k]:
                        check(out.ok, "stored {} can not be read: {!r}", typ, out)
                        eq(plain(out.value.to_dict()), recs[k][typ], "{} of {}".format(typ, k))
                    else:
                        check(not out.ok, "{} of {} was never stored but is {!r}", typ, k, out)
                eq(set(si.get_state(k).keys()), set(recs[k]), "parts of the record")
            else:
                check(not attempt(si.get_state, k).ok, "session {} does not exist but can be read", k)
                check(not attempt(si.get_iss, k).ok, "session {} does not exist but has an issuer", k)
                check(not attempt(si.get_item, Message, "auth_request", k).ok, "session {} does not exist but has a request", k)
        for x in XT:
            for v in ["x", "y", "x y", "u/\u00e9|==", "zz"]:
                out = attempt(getattr(si, GETTER[x]), v)
                if (x, v) in refs:
                    check(out.ok, "{} {!r} is bound to {} but: {!r}", x, v, refs[(x, v)], out)
                    eq(out.value, refs[(x, v)], "session of {} {!r}".format(x, v))
                else:
                    check(not out.ok, "{} {!r} is not bound but: {!r}", x, v, out)
    # nothing lingers once everything is removed
    for k in list(recs):
        si.remove_state(k)
    left = dict(si.dump()["_db"] or {})
    eq(left, {}, "what is left in the store when every session is removed")
    if removed or rebound or overwritten:
        t.nontriv("removed" if removed else "-", "rebound" if rebound else "-", "overwritten" if overwritten else "-")


CLAIMS = st.dictionaries(st.sampled_from(["sub", "iss", "nonce"]), st.text("ab", min_size=1, max_size=2), min_size=1, max_size=2)
TOKEN = st.one_of(CLAIMS, st.text("tu.", min_size=1, max_size=4), st.integers(0, 3), st.lists(st.text("ab", min_size=1), min_size=1, max_size=2))
RECORD = st.dictionaries(st.sampled_from(["t", "__verified_t", "t", "u", "__verified_u"]), TOKEN, max_size=3)


@test(st.fixed_dictionaries({"recs": st.lists(st.tuples(st.sampled_from(TYPES[:4]), RECORD), min_size=1, max_size=4, unique_by=lambda x: x[0]),
                             "order": st.permutations(TYPES[:4]), "orig": st.booleans(), "args": st.dictionaries(st.sampled_from(["t", "u", "v"]), TOKEN, max_size=2)}),
      quick=4000, thorough=40000)
def collecting(case, t):
    """Collecting parameters over several records: the last record that has one wins, in its verified form unless told otherwise."""
    si = StateInterface()
    si.create_state("https://a.example", "k")
    recs = {}
    for typ, item in case["recs"]:
        if item:
            si.store_item(Message(**item), typ, "k")
            recs[typ] = norm(item)
    want = dict(case["args"])
    hits = 0
    for typ in case["order"]:
        for p in ("t", "u"):
            has, v = pick(recs.get(typ, {}), p, case["orig"])
            if has:
                hits += p in want
                want[p] = v
    got = si.multiple_extend_request_args(dict(case["args"]), "k", ["t", "u"], list(case["order"]), case["orig"])
    eq(plain(got), want, "collected parameters")
    for p in ("t", "u"):
        for typ in recs:
            one = si.extend_request_args({}, Message, typ, "k", [p], case["orig"])
            has, v = pick(recs[typ], p, case["orig"])
            eq(plain(one), {p: v} if has else {}, "parameter of one record")
    if hits:
        t.nontriv()


def plain(x):
    if isinstance(x, Message):
        return json.loads(x.to_json())
    return json.loads(json.dumps(x, default=lambda m: json.loads(m.to_json())))


@test(st.fixed_dictionaries({"req": st.fixed_dictionaries({"scope": st.lists(st.sampled_from(["openid", "email", "a"]), min_size=1, max_size=3, unique=True),
                                                           "redirect_uri": st.sampled_from(["https://rp.example/cb", "https://rp.example/cb?a=1&b=%20"]),
                                                           "response_type": st.sampled_from(["code", "code id_token", "id_token token"]),
                                                           "nonce": text, "state": text, "client_id": text, "max_age": st.integers(0, 100),
                                                           "claims": st.sampled_from([{"userinfo": {"email": None}}, {"id_token": {"acr": {"values": ["a", "b"]}}}])},
                                                          ),
                             "key": st.sampled_from(["k", "k\u00e9"]), "n": st.integers(1, 4)}), quick=300, thorough=4000)
def typed_items(case, t):
    """A stored request is read back as the same request."""
    si = StateInterface()
    si.create_state("https://a.example", case["key"])
    req = AuthorizationRequest(**case["req"])
    si.store_item(req, "auth_request", case["key"])
    for _ in range(case["n"]):
        got = si.get_item(AuthorizationRequest, "auth_request", case["key"])
        eq(got.to_dict(), req.to_dict(), "request read back")
        eq(got.to_urlencoded(), req.to_urlencoded(), "request read back")
        si.store_item(got, "auth_request", case["key"])
    t.nontriv()


@test(st.fixed_dictionaries({"name": st.text(max_size=6), "style": st.sampled_from(["__{}__"]), "iss": st.just("https://a.example")}), quick=100, thorough=400)
def reserved_keys(case, t):
    """Keys of the reserved form are refused; they would collide with nonce references."""
    si = StateInterface()
    key = case["style"].format(case["name"])
    out = attempt(si.create_state, case["iss"], key)
    check(not out.ok, "reserved key {!r} accepted", key)
    check(not attempt(si.get_state, key).ok, "a refused key has a record")
    t.nontriv()


@test(st.lists(st.tuples(st.sampled_from(["set", "item", "get", "delete", "del"]), KEY, VALUE), min_size=1, max_size=20), quick=400, thorough=5000)
def data_base(ops, t):
    """The simple data base that comes with it"""
    db, model = InMemoryStateDataBase(), {}
    for op, i, v in ops:
        k = BASE[i]
        if op == "set":
            db.set(k, v)
            model[k] = v
        elif op == "item":
            db[k] = v
            model[k] = v
        elif op == "delete":
            db.delete(k)
            model.pop(k, None)
        elif op == "del":
            del db[k]
            model.pop(k, None)
        for k in BASE:
            eq(db.get(k), model.get(k), "get")
            eq(db[k], model.get(k), "item")
    if len({o[0] for o in ops}) > 2:
        t.nontriv()
