"""Type descriptions survive being sent and read back."""
from hypothesis import strategies as st

from .. import types as T
from ..core import Check, expect, expect_eq

RULE = "a case is one type description with values to try; non-trivial if the type carries a constraint, a flag or a nested type"


@st.composite
def cases(draw, kinds=None, depth=3):
    s = draw(T.spec(kinds, depth))
    good = T.value(s)
    vals = draw(st.lists(T.ANY_VALUE, max_size=3))
    if good is not None:
        vals += draw(st.lists(good, max_size=3))
    return {"spec": s, "values": vals}


def run(case, ctx):
    spec = case["spec"]
    a = T.build(spec)
    m = a.serialize_type()
    r = T.dt.get_iotype_for_msg(m)
    expect(r.is_ok(), lambda: "description of %s cannot be read back: %r" % (spec, r))
    b = r.unwrap()
    expect(type(a) is type(b), lambda: "%s came back as %s" % (spec, type(b).__name__))
    for f in ("allow_dynamic", "allow_static", "is_static"):
        expect_eq(getattr(b, f), getattr(a, f), "%s of %s" % (f, spec))
    expect(b.serialize_type() == m, lambda: "second description of %s differs" % spec)
    expect(
        a.is_compatible(b) and b.is_compatible(a),
        lambda: "%s and what was read back are not compatible with each other" % spec,
    )
    if spec["t"] in ("list", "dict"):
        depth, x, y = 0, a, b
        s = spec
        while s["t"] in ("list", "dict"):
            x, y, s = x._element_type, y._element_type, s["elem"]
            expect(
                type(x) is type(y),
                lambda: "element type of %s came back as %s" % (spec, type(y).__name__),
            )
    if spec["t"] == "generic":
        expect_eq(b.valid_types, a.valid_types, "selectable types of %s" % spec)
    for jv in case["values"]:
        v = T.decode(jv)
        if spec["t"] == "generic":
            x, y = T.build(spec), T.dt.get_iotype_for_msg(m).unwrap()
            try:
                got = T.try_set(x, v), T.try_set(y, v)
            except (KeyError, TypeError, AttributeError):
                continue
        else:
            want = T.accepts(spec, v)
            x = T.dt.get_iotype_for_msg(m).unwrap()
            got = (want, T.try_set(x, v))
        expect(
            got[0] == got[1],
            lambda: "%s accepts %r: %s before, %s after being read back" % (spec, v, got[0], got[1]),
        )
    ctx.tag(spec["t"])
    ctx.nontrivial(len(spec) > 3 or "is" in spec or not spec.get("stat", True))


CHECKS = [
    Check("values", lambda: cases(), run, 5000, 60000),
    Check("all", lambda: cases(T.ALL_KINDS, 1), run, 3000, 40000),
]
