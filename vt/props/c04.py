"""Compatibility of types: accepted only if every value of one is a value of the other."""
from hypothesis import strategies as st

from .. import types as T
from ..core import Check, expect, expect_eq

RULE = "a case is a pair of types with values of the second; non-trivial if both are of the same kind and not identical"
MAX = T.MAXLEN


def lim(s, key, default):
    return s[key] if s.get(key) is not None else default


def flags(s):
    return (s.get("dyn", True), s.get("stat", True)) if not (s["t"].endswith("_type") or s["t"] == "generic") else (False, True)


def reference(a, b, top=True):
    """Is every use of `a` satisfied by `b`?  From the documentation of each type."""
    if a["t"] != b["t"]:
        return False
    if top:
        (ad, as_), (bd, bs) = flags(a), flags(b)
        if (ad and not bd) or (as_ and not bs):
            return False
    k = a["t"]
    if k in ("int", "float"):
        lo, hi = (T.INT_LO, T.INT_HI) if k == "int" else (-T.FLT, T.FLT)
        return lim(b, "min", lo) >= lim(a, "min", lo) and lim(b, "max", hi) <= lim(a, "max", hi)
    if k in ("string", "path", "bytes"):
        d = 1 if k == "bytes" else MAX
        if lim(b, "max", d) > lim(a, "max", d):
            return False
        if a.get("valid") is not None:
            return b.get("valid") is not None and set(b["valid"]) <= set(a["valid"])
        return True
    if k in ("list", "dict"):
        am, bm = lim(a, "max", MAX), lim(b, "max", MAX)
        if bm > am:
            return False
        if a.get("strict") and not (b.get("strict") and am == bm):
            return False
        return reference(a["elem"], b["elem"], False)
    if k == "msg":
        return a["type"] == b["type"]
    if k == "generic":
        return set(b["types"]) <= set(a["types"])
    if k.endswith("_name") or k.endswith("_type"):
        return a.get("iid", 0) == b.get("iid", 0)
    return True


@st.composite
def related(draw, s, top=True):
    """A description near `s`: some constraints moved, dropped or added."""
    s = dict(s)
    k = s["t"]
    if draw(st.integers(0, 11)) == 0:
        return draw(T.spec(None, 1)) if top else draw(T.spec(T.SCALARS, 1, False))
    if top and "dyn" in s and draw(st.integers(0, 3)) == 0:
        for f in ("dyn", "stat", "is"):
            s.pop(f, None)
        s = draw(T.flags(s))
    if k in ("int", "float"):
        for f in ("min", "max"):
            c = draw(st.integers(0, 4))
            if c == 0:
                s.pop(f, None)
            elif c == 1:
                s[f] = draw(T.ints() if k == "int" else T.floats())
            elif c == 2 and s.get(f) is not None:
                d = draw(st.sampled_from([-1, 1]))
                s[f] = min(max(s[f] + d, T.INT_LO), T.INT_HI) if k == "int" else min(max(s[f] * 1.5 + d, -T.FLT), T.FLT)
        if s.get("min") is not None and s.get("max") is not None and s["min"] > s["max"]:
            s["min"], s["max"] = s["max"], s["min"]
    elif k in ("string", "path", "bytes", "list", "dict"):
        c = draw(st.integers(0, 4))
        if c == 0:
            s.pop("max", None)
            if "strict" in s:
                s.pop("strict")
        elif c == 1:
            s["max"] = draw(st.integers(0, 5))
        if k in ("list", "dict"):
            if draw(st.integers(0, 3)) == 0 and s.get("max") is not None:
                s["strict"] = not s.get("strict", False)
            s["elem"] = draw(related(s["elem"], False))
        if k == "string":
            c = draw(st.integers(0, 4))
            if c == 0:
                s.pop("valid", None)
            elif c in (1, 2) and s.get("valid"):
                s["valid"] = s["valid"][: draw(st.integers(1, len(s["valid"])))]
            elif c == 3:
                s["valid"] = draw(st.lists(st.sampled_from("a b c dd eee ffff".split()), min_size=1, max_size=5, unique=True))
    elif k == "msg":
        if draw(st.integers(0, 2)) == 0:
            s["type"] = draw(st.sampled_from(T.MESSAGES))
    elif k == "generic":
        if draw(st.booleans()):
            s["types"] = s["types"][: draw(st.integers(1, len(s["types"])))]
        else:
            s["types"] = sorted(set(s["types"]) | {draw(st.sampled_from(sorted(T.GENERIC)))})
    elif "iid" in s and draw(st.booleans()):
        s["iid"] = draw(st.integers(0, 2))
    return s


@st.composite
def cases(draw, kinds=None, depth=2):
    a = draw(T.spec(kinds, depth))
    b = draw(related(a))
    if draw(st.booleans()):
        a, b = b, a
    good = T.value(b) if b["t"] != "generic" else None
    return {"a": a, "b": b, "values": draw(st.lists(good, max_size=4)) if good is not None else []}


def run(case, ctx):
    a, b = case["a"], case["b"]
    x, y = T.build(a), T.build(b)
    got = bool(x.is_compatible(y))
    want = reference(a, b)
    if got and not want:
        msg = "is taken to fit where"
    else:
        msg = "is not taken to fit where"
    expect(got == want, lambda: "a value of %s %s %s is required" % (b, msg, a))
    expect(x.is_compatible(T.build(a)), lambda: "%s is not compatible with itself" % a)
    if got:
        for jv in case["values"]:
            v = T.decode(jv)
            if T.try_set(T.build(b), v):
                expect(
                    T.try_set(T.build(a), v),
                    lambda: "%s is compatible with %s, but refuses its value %r" % (a, b, v),
                )
    # what decides at run time: the same with only the way the value is given left
    rx, ry = x.get_runtime_type(), y.get_runtime_type()
    fx, fy = x.is_static, y.is_static
    a2 = dict(a, dyn=not fx, stat=fx)
    b2 = dict(b, dyn=not fy, stat=fy)
    if "dyn" in a and "dyn" in b:
        expect_eq(
            bool(rx.is_compatible(ry)),
            reference(a2, b2),
            "run time compatibility of %s with %s" % (a, b),
        )
    eq = x == y
    if eq:
        expect(want and reference(b, a), lambda: "%s and %s compare as equal" % (a, b))
    ctx.tag(a["t"])
    ctx.tag("compatible" if got else "incompatible")
    ctx.nontrivial(a["t"] == b["t"] and a != b)


CHECKS = [
    Check("plain", lambda: cases(), run, 6000, 80000),
    Check("all", lambda: cases(T.ALL_KINDS, 1), run, 3000, 40000),
]
