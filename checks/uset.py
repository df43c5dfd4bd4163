"""U01..U06: UnicodeSet.

Sets are canonical boundary lists of a fixed number of boundaries whose values
are symbolic (any strictly increasing sequence), so one run covers all sets with
that many boundaries; arguments are symbolic integers."""
from . import check
from .common import *

MOD = "UnicodeData.UnicodeSet"
HIGH = 0x110000


def representation(ctx):
    """The attribute that holds the boundary list of an empty set, or None."""
    cls = ctx.anchor(MOD, "UnicodeSet")
    out = ctx.project.call(cls, ())
    if len(out) == 1 and out[0].status == "ret" and isinstance(out[0].result, Ref):
        st = out[0]
        o = st.get(st.result)
        if o.kind == "inst" and len(o.attrs) == 1:
            (name, v), = o.attrs.items()
            if isinstance(v, Ref) and st.get(v).kind == "list" and st.get(v).items == [HIGH]:
                return name
    return None


def specs(ctx):
    cls = ctx.anchor(MOD, "UnicodeSet")
    rep = representation(ctx)
    ctx.rep = rep
    if rep is not None:
        def build(vm, st, a, k):
            items = list(st.get(a[0]).items) + [HIGH]
            return st.alloc(InstO(cls, {rep: st.alloc(ListO(items))}))
        b = BuiltinV("build", build)
    else:
        b = None
    s = ctx.spec("uset", {"UnicodeSet": cls, "build": b})
    if b is None:
        p = ctx.project
        ctx.project.add_module("spec:uset_build", BUILD, {"UnicodeSet": cls})
        p.vm.base[p.vm.modules["spec:uset"].id].attrs["build"] = p.get("spec:uset_build", "build")
        ctx.assumptions.append("sets are built through addRange: the boundary list is not the only attribute of a set")
    return s


BUILD = '''
def build(a):
    s = UnicodeSet()
    i = 0
    while i < len(a):
        s.addRange(a[i], (a[i + 1] if i + 1 < len(a) else 0x110000) - 1)
        i += 2
    return s
'''


def boundaries(name, n, f, gaps=None):
    """n symbolic boundaries, strictly increasing in 0..10FFFF."""
    vs = [var("%s%d" % (name, i), i, MAXC - (n - 1 - i)) for i in range(n)]
    for i in range(n - 1):
        f = f.assume(sub(vs[i], vs[i + 1]), "<")
    return vs, f


def one(ctx, label, n, target, ref, extra=(), rextra=None, facts=None, **kw):
    f = facts or Facts()
    vs, f = boundaries("a", n, f)

    def args(vm, st):
        return ((st.alloc(ListO(list(vs))),) + tuple(extra), {})

    def rargs(vm, st, a):
        return (st.alloc(ListO(list(vs))),) + tuple(extra if rextra is None else rextra)
    ctx.equiv("%s, %d boundaries" % (label, n), target, ref, args, facts=f, ref_args=rargs, **kw)


def two(ctx, label, n, m, target, ref, extra=(), rextra=(), **kw):
    vs, f = boundaries("a", n, Facts())
    ws, f = boundaries("b", m, f)

    def args(vm, st):
        return ((st.alloc(ListO(list(vs))), st.alloc(ListO(list(ws)))) + tuple(extra), {})

    def rargs(vm, st, a):
        return (st.alloc(ListO(list(vs))), st.alloc(ListO(list(ws)))) + tuple(rextra)
    ctx.equiv("%s, %d and %d boundaries" % (label, n, m), target, ref, args, facts=f, ref_args=rargs, **kw)


W = lambda n: "UnicodeData/UnicodeSet.py:UnicodeSet.%s" % n

BULK = [("addAll", "OR"), ("retainAll", "AND"), ("removeAll", "SUB"), ("complementAll", "XOR")]
PURE = [("union", "OR"), ("intersection", "AND"), ("difference", "SUB"), ("symmetric_difference", "XOR")]
OPS = [("or", "OR"), ("and", "AND"), ("sub", "SUB"), ("xor", "XOR")]


def big_pairs():
    x = pattern(300, 0, 0x60000, 1)
    y = pattern(301, 0x10000, 0x80000, 2)
    yield x, y, "overlapping"
    yield y, x, "overlapping, swapped"
    yield x, list(x), "identical"
    yield x, [v + 1 for v in x], "shifted by one"
    yield x, x[40:260], "part"
    yield x[40:260], x, "whole"
    yield x[:150], x[149:], "sharing a boundary"
    yield pattern(128, 0, 0x8000, 5), pattern(128, 0xC0000, 0x100000, 6), "apart"
    yield [2 * i for i in range(200)], [2 * i + 1 for i in range(200)], "interleaved"


@check("U01")
def u01(ctx):
    s = specs(ctx)
    k = 6 if ctx.thorough else 4
    for name, op in BULK:
        for n in range(k + 1):
            for m in range(k + 1):
                two(ctx, name, n, m, s("t_bulk_self"), s("r_bulk"), (name,), (s(op),), where=W(name))
    for x, y, what in big_pairs():
        for name, op in BULK:
            fixed_set(ctx, "%s, %s" % (name, what), x, s("t_bulk_self"), s("r_bulk"), (name,), (s(op),), other=y, where=W(name))
        fixed_set(ctx, "union, " + what, x, s("t_bulk"), s("r_bulk"), ("union",), (s("OR"),), other=y, where=W("union"))
    for name, op in BULK:
        for n in (16, 17):
            x = pattern(n, 0x20, 0x2000, 3)
            ws, f = boundaries("b", 2, Facts())
            fixed_set(ctx, name + " with two unknown boundaries", x, s("t_bulk_self"), s("r_bulk"), (name,), (s(op),), other=ws, facts=f, where=W(name))
            fixed_set(ctx, name + " of two unknown boundaries", ws, s("t_bulk_self"), s("r_bulk"), (name,), (s(op),), other=x, facts=f, where=W(name))
    for name, op in PURE:
        for n in range(3):
            for m in range(3):
                two(ctx, name, n, m, s("t_bulk"), s("r_bulk"), (name,), (s(op),), where=W(name))
    for name, op in OPS:
        for n in range(3):
            for m in range(3):
                two(ctx, "__%s__" % name, n, m, s("t_" + name), s("r_bulk"), (), (s(op),), where=W("__%s__" % name))
                two(ctx, "__i%s__" % name, n, m, s("t_i" + name), s("r_bulk"), (), (s(op),), where=W("__i%s__" % name))


AFTER = [("add", "r_add", 1), ("remove", "r_remove", 1), ("retain", "r_retain", 1), ("complement", "r_complement", 1),
         ("addRange", "r_add_range", 2), ("removeRange", "r_remove_range", 2), ("retainRange", "r_retain_range", 2),
         ("complementRange", "r_complement_range", 2), ("complement(range)", "r_complement_range", 2),
         ("complement", "r_complement_all", 0), ("clear", "r_empty_of", 0),
         ("addAll", "r_bulk_or", -1), ("retainAll", "r_bulk_and", -1), ("removeAll", "r_bulk_sub", -1), ("complementAll", "r_bulk_xor", -1)]


def after(ctx, s, query, n, kind=None, where=None):
    """Ask, change the set, ask again: the answer follows the change."""
    for name, ref, k in AFTER:
        vs, f = boundaries("a", n, Facts())
        if k < 0:
            ws, f = boundaries("b", 2, f)
        else:
            ws = [var("x", 0, MAXC), var("y", 0, MAXC)][:k]
        q = var("q", 0, MAXC)
        qs, _ = boundaries("q", 2, Facts())

        def pack(st, own):
            a = st.alloc(ListO(list(vs)))
            b = (st.alloc(ListO(list(ws))),) if k < 0 else tuple(ws)
            o = q if kind == "int" else st.alloc(ListO(list(vs))) if kind == "set" else None
            return (a, own, b, query, o)

        def args(vm, st, name=name):
            return (pack(st, name), {})

        def rargs(vm, st, a, ref=ref):
            return pack(st, s(ref))
        ctx.equiv("%s after %s, %d boundaries" % (query, name, n), s("t_after"), s("r_after"), args, facts=f,
                  ref_args=rargs, where=W(where or query))


def pattern(n, lo, hi, seed, irregular=True):
    """n fixed boundaries between lo and hi, irregularly spaced."""
    step = (hi - lo) // (n + 1)
    out, x = [], lo
    for i in range(n):
        seed = (seed * 1103515245 + 12345) & 0x7FFFFFFF
        x += 1 + (seed >> 8) % max(1, 2 * step - 1) if irregular else step
        out.append(x)
    assert out[-1] <= MAXC
    return out


def fixed_set(ctx, label, items, target, ref, extra=(), rextra=None, other=None, **kw):
    """A fixed, large set; other: a second fixed or symbolic list."""
    def args(vm, st):
        o = (st.alloc(ListO(list(other))),) if other is not None else ()
        return ((st.alloc(ListO(list(items))),) + o + tuple(extra), {})

    def rargs(vm, st, a):
        o = (st.alloc(ListO(list(other))),) if other is not None else ()
        return (st.alloc(ListO(list(items))),) + o + tuple(extra if rextra is None else rextra)
    ctx.equiv("%s, %d fixed boundaries" % (label, len(items)), target, ref, args, ref_args=rargs, **kw)


def ints(*names):
    return tuple(var(n, -0x200000, 0x400000) for n in names)


POINT = [("add", "r_add"), ("remove", "r_remove"), ("retain", "r_retain"), ("complement", "r_complement")]
RANGE = [("addRange", "r_add_range"), ("removeRange", "r_remove_range"), ("retainRange", "r_retain_range"), ("complementRange", "r_complement_range")]


@check("U02")
def u02(ctx):
    s = specs(ctx)
    k = 9 if ctx.thorough else 6
    c, = ints("c")
    a, b = ints("s", "e")
    for n in range(k + 1):
        for name, ref in POINT:
            one(ctx, name, n, s("t_mutate"), s(ref), (name, c), (c,), where=W(name))
        if n <= k - 1:
            for name, ref in RANGE:
                one(ctx, name, n, s("t_mutate"), s(ref), (name, a, b), (a, b), where=W(name))
            one(ctx, "complement(range)", n, s("t_complement_range"), s("r_complement_range"), (a, b), where=W("complement"))
        one(ctx, "complement()", n, s("t_mutate"), s("r_complement_all"), ("complement",), (), where=W("complement"))
        one(ctx, "clear()", n, s("t_mutate"), s("r_empty"), ("clear",), (), where=W("clear"))
        one(ctx, "UnicodeSet(set)", n, s("t_new_copy"), s("ranges_of"), where=W("__init__"))
    for n in (40, 41) if not ctx.thorough else (40, 41, 90):
        for name, ref in POINT:
            fixed_set(ctx, name, pattern(n, 0x20, 0x3000, n), s("t_mutate"), s(ref), (name, c), (c,), where=W(name))
    for n in (16, 17):
        for name, ref in RANGE:
            fixed_set(ctx, name, pattern(n, 0x20, 0x3000, n), s("t_mutate"), s(ref), (name, a, b), (a, b), where=W(name))
    for n in (40, 301):
        x = pattern(n, 0x20, 0x60000, n)
        fixed_set(ctx, "complement()", x, s("t_mutate"), s("r_complement_all"), ("complement",), (), where=W("complement"))
        fixed_set(ctx, "clear()", x, s("t_mutate"), s("r_empty"), ("clear",), (), where=W("clear"))
        fixed_set(ctx, "UnicodeSet(set)", x, s("t_new_copy"), s("ranges_of"), (), where=W("__init__"))
    ctx.equiv("UnicodeSet()", s("t_new"), s("r_empty"), fixed(), where=W("__init__"))
    ctx.equiv("UnicodeSet(int)", s("t_new_point"), s("r_new_point"), fixed(c), where=W("__init__"))
    ctx.equiv("UnicodeSet(range)", s("t_new_range"), s("r_new_range"), fixed(a, b), where=W("__init__"))


@check("U03")
def u03(ctx):
    s = specs(ctx)
    k = 5 if ctx.thorough else 4
    for n in range(k + 1):
        for m in range(k + 1):
            two(ctx, "==", n, m, s("t_equal"), s("r_equal"), truthy=True, where=W("__eq__"))
            two(ctx, "!=", n, m, s("t_unequal"), s("r_unequal"), truthy=True, where=W("__ne__"))
        one(ctx, "str", n, s("t_str"), s("r_str"), where=W("__str__"))
    for n in range(3):
        after(ctx, s, "str", n, where="__str__")
        after(ctx, s, "equal", n, "set", where="__eq__")
    v = var("v", 0, HIGH)
    for n in (40, 41):
        x = pattern(n, 0x20, 0x60000, n)
        fixed_set(ctx, "str", x, s("t_str"), s("r_str"), where=W("__str__"))
        for j in range(n):
            lo, hi = x[j - 1] + 1 if j else 0, x[j + 1] - 1 if j + 1 < n else MAXC
            fixed_set(ctx, "== with boundary %d changed" % j, x, s("t_changed"), s("r_changed"), (j, var("v", lo, hi)), where=W("__eq__"))
        for j in range(n):
            for steps in ((1, 1), (1, -1), (1, 0, -1), (1, 0, 1), (1, -2, 1)):      # same length, and same size or same sum of boundaries
                y = [b + (steps[i - j] if 0 <= i - j < len(steps) else 0) for i, b in enumerate(x)]
                if y != x and all(p < q for p, q in zip(y, y[1:])):
                    fixed_set(ctx, "== with boundaries from %d moved by %s" % (j, steps), x, s("t_equal"), s("r_equal"), other=y, where=W("__eq__"))
        fixed_set(ctx, "== with a prefix", x, s("t_equal"), s("r_equal"), other=x[:-1], where=W("__eq__"))
        fixed_set(ctx, "== with a longer set", x, s("t_equal"), s("r_equal"), other=x + [MAXC], where=W("__eq__"))


@check("U04")
def u04(ctx):
    s = specs(ctx)
    k = 16 if ctx.thorough else 9
    c = var("c", 0, 0x400000)
    a, b = var("s", 0, MAXC), var("e", 0, 0x110000)
    for n in range(k + 1):
        one(ctx, "contains(int)", n, s("t_contains"), s("r_contains"), (c,), truthy=True, where=W("contains"))
        one(ctx, "int in set", n, s("t_in"), s("r_contains"), (c,), truthy=True, where=W("__contains__"))
        one(ctx, "contains(range)", n, s("t_contains_range"), s("r_contains_range"), (a, b), truthy=True, where=W("contains"))
        one(ctx, "range in set", n, s("t_in_range"), s("r_contains_range"), (a, b), truthy=True, where=W("__contains__"))


    for n in range(3):
        after(ctx, s, "contains", n, "int")
    for n in (17, 40, 141, 300) if not ctx.thorough else (17, 40, 141, 300, 301, 700):
        x = pattern(n, 0x20, 0xF0000 if n > 100 else 0x3000, n)
        fixed_set(ctx, "contains(int)", x, s("t_contains"), s("r_contains"), (c,), truthy=True, where=W("contains"))
        fixed_set(ctx, "int in set", x, s("t_in"), s("r_contains"), (c,), truthy=True, where=W("__contains__"))
    for n in (40, 41):
        x = pattern(n, 0x20, 0x3000, n)
        fixed_set(ctx, "contains(range)", x, s("t_contains_range"), s("r_contains_range"), (a, b), truthy=True, where=W("contains"))


@check("U05")
def u05(ctx):
    s = specs(ctx)
    k = 12 if ctx.thorough else 8
    c = var("c", -0x200000, 0x400000)
    i = var("i", -0x200000, 0x400000)
    for n in range(k + 1):
        one(ctx, "size", n, s("t_call"), s("r_size"), ("size",), (), where=W("size"))
        one(ctx, "getRangeCount", n, s("t_call"), s("r_count"), ("getRangeCount",), (), where=W("getRangeCount"))
        one(ctx, "getRangeStart/End", n, s("t_bounds"), s("r_bounds"), where=W("getRangeStart"))
        one(ctx, "getRanges", n, s("observe_built"), s("ranges_of"), where=W("getRanges"))
        one(ctx, "indexOf", n, s("t_call"), s("r_index_of"), ("indexOf", c), (c,), where=W("indexOf"))
        one(ctx, "charAt", n, s("t_call"), s("r_char_at"), ("charAt", i), (i,), where=W("charAt"))
        one(ctx, "indexOf(charAt)", n, s("t_roundtrip"), s("r_roundtrip"), (i,), where=W("indexOf"))
    for n in range(3):
        after(ctx, s, "size", n)
        after(ctx, s, "bounds", n, where="getRangeStart")
        after(ctx, s, "ranges", n, where="getRanges")
        after(ctx, s, "indexOf", n, "int")
        after(ctx, s, "charAt", n, "int")
        after(ctx, s, "first", n, where="__iter__")
    for n in (40, 41, 300):
        x = pattern(n, 0x20, 0xF0000 if n > 100 else 0x3000, n)
        fixed_set(ctx, "size", x, s("t_call"), s("r_size"), ("size",), (), where=W("size"))
        fixed_set(ctx, "getRangeCount", x, s("t_call"), s("r_count"), ("getRangeCount",), (), where=W("getRangeCount"))
        fixed_set(ctx, "getRangeStart/End", x, s("t_bounds"), s("r_bounds"), (), where=W("getRangeStart"))
        fixed_set(ctx, "getRanges", x, s("observe_built"), s("ranges_of"), (), where=W("getRanges"))
        if n < 100:
            fixed_set(ctx, "indexOf", x, s("t_call"), s("r_index_of"), ("indexOf", c), (c,), where=W("indexOf"))
            fixed_set(ctx, "charAt", x, s("t_call"), s("r_char_at"), ("charAt", i), (i,), where=W("charAt"))
    x = pattern(30, 0x20, 0x100, 9) + [MAXC - 3]
    fixed_set(ctx, "iteration", x, s("t_members"), s("r_members"), (), where=W("__iter__"))
    import itertools
    gaps = (1, 2, 3)
    for n in range(0, 5):
        for combo in itertools.product(gaps, repeat=n):
            if n and not ctx.thorough and sum(combo) > 8:
                continue
            start = var("a", 0, MAXC - sum(combo))

            def args(vm, st, combo=combo, n=n):
                items, x = [], start
                if n % 2 == 0:
                    for j in range(n):
                        items.append(x)
                        x = add(x, combo[j])
                else:                       # last range reaches U+10FFFF
                    x = HIGH
                    for j in range(n):
                        x = x - combo[j]
                        items.insert(0, x)
                return ((st.alloc(ListO(items)),), {})
            ctx.equiv("iteration, gaps %s" % (combo,), s("t_members"), s("r_members"), args, where=W("__iter__"))


@check("U06")
def u06(ctx):
    s = specs(ctx)
    k = 3 if ctx.thorough else 2
    c = var("c", 0, MAXC)
    for n in range(k + 1):
        for m in range(k + 1):
            for name, op in PURE:
                two(ctx, name + " isolated", n, m, s("t_isolated"), s("r_isolated"), (name, c), (s(op),), where=W(name))
            for name, op in BULK:
                two(ctx, name + " isolated", n, m, s("t_isolated_inplace"), s("r_isolated_inplace"), (name, c), (s(op),), where=W(name))
    for n in range(k + 3):
        one(ctx, "copy isolated", n, s("t_isolated_copy"), s("r_isolated_copy"), (c,), where=W("__init__"))
        for name, op in BULK + PURE:
            one(ctx, name + " with itself", n, s("t_alias"), s("r_alias"), (name,), (s(op),), where=W(name))
    for n in range(k + 1):
        for m in range(k + 1):
            two(ctx, "getRanges lists", n, m, s("t_handed_out"), s("r_handed_out"), where=W("getRanges"))
    a, b = ints("s", "e")
    x, = ints("c")
    for n in range(k + 2):
        for name, _ in POINT:
            one(ctx, name + " chains", n, s("t_returns_self"), s("r_true"), (name, x), where=W(name))
        for name, _ in RANGE:
            one(ctx, name + " chains", n, s("t_returns_self"), s("r_true"), (name, a, b), where=W(name))
        for name in ("clear", "complement"):
            one(ctx, name + " chains", n, s("t_returns_self"), s("r_true"), (name,), where=W(name))
        for name, _ in BULK:
            two(ctx, name + " chains", n, 2, s("t_bulk_returns_self"), s("r_true"), (name,), where=W(name))
        for name, _ in OPS:
            two(ctx, "__i%s__ keeps identity" % name, n, 2, s("t_i%s_identity" % name), s("r_true"), where=W("__i%s__" % name))
