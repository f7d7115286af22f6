"""Constraints are enforced and stored values are isolated, over assignment histories."""
import copy

from hypothesis import strategies as st

from .. import types as T
from ..core import Check, expect, expect_eq

RULE = "a case is one type with a history of assignments; non-trivial if at least one assignment was accepted and one refused or repeated"
ASSUMPTIONS = ["a raised type check error counts as a refusal, like a returned error"]


@st.composite
def cases(draw, kinds=None, depth=2):
    s = draw(T.spec(kinds, depth))
    good = T.value(s)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        c = draw(st.integers(0, 9))
        if c <= 4 and good is not None:
            ops.append(["set", draw(good)])
        elif c <= 6:
            ops.append(["set", draw(T.ANY_VALUE)])
        elif c == 7:
            ops.append(["clear"])
        elif c == 8:
            ops.append(["flag"])
        elif c == 9:
            ops.append(draw(st.sampled_from([["resetvalue"], ["again"]])))
    return {"spec": s, "ops": ops}


def mutate(v):
    """Change a value at every level it can be changed at."""
    if isinstance(v, list):
        for x in v:
            mutate(x)
        v.append("intruder")
    elif isinstance(v, dict):
        for x in v.values():
            mutate(x)
        v["intruder"] = 1
    elif hasattr(v, "get_fields_and_field_types") and not isinstance(v, type):
        for f in v.get_fields_and_field_types():
            x = getattr(v, f)
            if isinstance(x, str):
                object.__setattr__(v, "_" + f, x + "intruder")
            elif isinstance(x, bool):
                object.__setattr__(v, "_" + f, not x)
            elif isinstance(x, int):
                object.__setattr__(v, "_" + f, 1 if x == 0 else 0)
            elif isinstance(x, list) or hasattr(x, "get_fields_and_field_types"):
                mutate(x)
            elif hasattr(x, "tolist") or hasattr(x, "typecode"):
                for i in range(len(x)):
                    x[i] = 1 if x[i] == 0 else 0


def stored_form(spec, v):
    """What the type is documented to store for an accepted value."""
    if spec["t"] == "float":
        return float(v)
    if spec["t"] == "dict":
        return {str(k): x for k, x in v.items()}
    return v


def equal(a, b):
    if hasattr(a, "tolist"):
        a = a.tolist()
    if hasattr(b, "tolist"):
        b = b.tolist()
    try:
        r = a == b
        return bool(r) or (a != a and b != b)
    except ValueError:
        return T.same(a, b)


def run(case, ctx):
    spec = case["spec"]
    c = T.build(spec)
    r = c.get_value()
    has, cur = r.is_ok(), (r.unwrap() if r.is_ok() else None)
    updated = c.is_updated()
    expect(not updated, "a fresh type is already flagged as updated")
    ok = bad = 0
    last = None
    for i, op in enumerate(case["ops"]):
        where = "operation %d (%s) on %s" % (i, op, spec)
        if op[0] == "again":
            if last is None:
                continue
            op = ["set", last]
        if op[0] == "set":
            last = op[1]
            v = T.decode(op[1])
            want = T.accepts(spec, v)
            if c.is_static and updated:
                want = False
            mine = copy.deepcopy(v)
            got = T.try_set(c, mine)
            expect(
                got == want,
                lambda: "%s: %s, expected %s" % (where, "accepted" if got else "refused", "accepted" if want else "refused"),
            )
            if got:
                ok += 1
                new = stored_form(spec, v)
                if not has or not equal(cur, new):
                    updated = True
                    cur = new
                has = True
                mutate(mine)
            else:
                bad += 1
        elif op[0] == "clear":
            c.reset_updated()
            updated = False
        elif op[0] == "flag":
            c.flag_updated()
            updated = True
        elif op[0] == "resetvalue":
            c.reset_value()
            if not c.is_static:
                has, cur = False, None
        expect_eq(c.has_value(), has, where + ": has a value")
        expect_eq(c.is_updated(), updated, where + ": updated flag")
        r = c.get_value()
        expect_eq(r.is_ok(), has, where + ": value available")
        if has:
            got = r.unwrap()
            expect(equal(got, cur), lambda: "%s: holds %r, expected %r" % (where, got, cur))
            expect(
                T.accepts(spec, got) or ok == 0,
                lambda: "%s: holds %r, which violates its constraints" % (where, got),
            )
            mutate(got)
            again = c.get_value().unwrap()
            expect(equal(again, cur), lambda: "%s: changing a read value changed the stored one" % where)
            for type_ in (bool, int, float, str, bytes, list, dict):
                ra = c.get_value_as(type_)
                expect_eq(ra.is_ok(), isinstance(cur, type_), "%s: readable as %s" % (where, type_.__name__))
        else:
            expect(c.get_value_as(int).is_err(), where + ": a missing value was readable")
            expect_eq(c.serialize_value(), "", where + ": serialized form of a missing value")
    ctx.tag(spec["t"])
    ctx.tag("refused" if bad else "none refused")
    ctx.nontrivial(ok >= 1 and (bad >= 1 or ok >= 2))


PLAIN = T.SCALARS + ("list", "dict", "msg", "topic_name")
CHECKS = [
    Check("history", lambda: cases(PLAIN), run, 6000, 80000),
    Check(
        "types",
        lambda: cases(("topic_type", "service_type", "action_type", "component_type", "service_name", "action_name")),
        run,
        1500,
        15000,
    ),
]
