"""Values survive serialization."""
from hypothesis import strategies as st

from .. import types as T
from ..core import Check, expect

RULE = "a case is one data type with one value within its constraints; non-trivial unless the value is the type's default"
ASSUMPTIONS = [
    "message classes of example_interfaces and vt_interfaces are stand-ins generated with the ROS generator, without type support libraries",
    "infinite floating point values are not generated: no float type accepts them",
]


@st.composite
def cases(draw, kinds=None, depth=2):
    for _ in range(4):
        s = draw(T.spec(kinds, depth))
        v = T.value(s)
        if v is not None:
            return {"spec": s, "value": draw(v)}
    return {"spec": {"t": "int"}, "value": draw(T.ints())}


def run(case, ctx):
    spec, value = case["spec"], T.decode(case["value"])
    src = T.build(spec)
    default = src.get_value()
    r = src.set_value(value)
    expect(r.is_ok(), lambda: "%s refuses the legal value %r: %r" % (spec, value, r))
    text = src.serialize_value()
    expect(isinstance(text, str), "serialized form is not text")
    for how in ("same", "described"):
        if how == "same":
            dst = T.build(spec)
        else:
            r = T.dt.get_iotype_for_msg(src.serialize_type())
            expect(r.is_ok(), lambda: "type %s cannot be read back: %r" % (spec, r))
            dst = r.unwrap()
        r = dst.deserialize_value(text)
        expect(
            r.is_ok(),
            lambda: "value %r of %s, written as %s, is refused when read back into the %s type: %r"
            % (value, spec, text, how, r),
        )
        got = dst.get_value().unwrap()
        want = src.get_value().unwrap()
        expect(
            T.same(got, want),
            lambda: "%r was written as %s and read back as %r" % (want, text, got),
        )
        expect(
            T.same(want, value) or want == value,
            lambda: "stored %r, got back %r" % (value, want),
        )
        again = dst.serialize_value()
        expect(again == text, lambda: "second writing differs: %s vs %s" % (again, text))
    ctx.tag(spec["t"])
    ctx.nontrivial(default.is_err() or not T.same(default.unwrap(), value))


CHECKS = [
    Check("plain", lambda: cases(T.SCALARS + ("list", "dict")), run, 6000, 80000),
    Check("messages", lambda: cases(("msg", "msg", "list", "dict"), 1), run, 3000, 40000),
    Check(
        "types",
        lambda: cases(("generic", "topic_type", "service_type", "action_type", "component_type", "topic_name", "service_name", "action_name")),
        run,
        3000,
        30000,
    ),
]
