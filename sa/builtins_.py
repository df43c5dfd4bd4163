"""Transfer functions of the operators, builtin types and library functions."""
import builtins as _pyb
from fractions import Fraction
from .expr import *
from .facts import finite_root, is_finite_root, domain, bit_indices
from .vm import *
from .vm import NULL, PUSHED, STOP, exc_is

BUILTINS = {}
PRELUDE = {}          # name -> FuncV (filled by the loader)
OPAQUE_MODULES = {"typing", "os", "os.path", "sys", "pathlib", "datetime", "shutil", "xml", "xml.etree", "xml.etree.ElementTree",
                  "pkg_resources", "csv", "re", "fontTools", "fontTools.misc", "fontTools.misc.sstruct", "FontDocTools",
                  "FontDocTools.ArgumentIterator", "collections.abc", "abc", "__future__", "warnings", "array", "string",
                  "importlib", "importlib.resources", "io", "logging", "argparse", "contextlib", "numbers", "copy"}

NUM = (bool, int, float, Lin)


def isnum(x):
    return isinstance(x, NUM)


def isstr(x):
    return isinstance(x, (str, SStr))


def is_none(x):
    return x is None


def terr(*a):
    return PyRaise(ExcV("TypeError", a))


def init(vm):
    pass


def conc(x):
    """A concrete Python number, or None."""
    if isinstance(x, Lin):
        x = unlin(x)
        return None if isinstance(x, Lin) else x
    return x


def simp(st, x):
    if isinstance(x, Lin) and x.terms:
        lo, hi = st.facts.interval(x)
        if lo is not None and lo == hi:
            return unlin(Lin((), lo, x.f))
    return unlin(x) if isinstance(x, Lin) else x


def rng(st):
    return st.facts.interval


def concretise(vm, st, x, cap=600, what="value"):
    """Split the state until x has a single value; return it."""
    x = simp(st, x)
    if not isinstance(x, Lin):
        return x
    root = finite_root(x)
    if root is not None:
        from .facts import values_on
        vs = values_on(root, x)
        m = st.facts.root_mask(root)
        vals = sorted({vs[i] for i in bit_indices(m) if vs[i] is not None})
        if len(vals) == 1:
            return vals[0]
        if len(vals) <= cap:
            mid = vals[len(vals) // 2]
            if st.decide(sub(x, mid), "<"):
                pass
            return concretise_dec(vm, st, x, vals)
        raise Unsupported("%s takes %d values at %s" % (what, len(vals), st.where()))
    lo, hi = st.facts.interval(x)
    if lo is None or hi is None or hi - lo > cap:
        raise Unsupported("%s is unbounded at %s" % (what, st.where()))
    mid = (lo + hi + 1) // 2
    st.decide(sub(x, mid), "<")
    # decided either way but the interval did not shrink to one value
    for v in range(lo, hi + 1):
        if st.decide(sub(x, v), "=="):
            return v
    raise Unsupported("concretisation at %s" % st.where())


def concretise_dec(vm, st, x, vals):
    lo, hi = 0, len(vals)
    while hi - lo > 1:
        m = (lo + hi) // 2
        if st.decide(sub(x, vals[m]), "<"):
            hi = m
        else:
            lo = m
    return vals[lo]


# ------------------------------------------------------------------ numbers

def num_neg(x):
    return scale(x, -1)


def frac_const(x):
    c = conc(x)
    if c is None:
        return None
    if isinstance(c, float):
        return Fraction(c)
    return c


def num_mul(vm, st, x, y):
    a, b = conc(x), conc(y)
    if b is not None:
        r = scale(lin(x), Fraction(b) if isinstance(b, float) else b)
        if isinstance(b, float) and not r.f:
            r = Lin(r.terms, r.const, True)
        return r
    if a is not None:
        return num_mul(vm, st, y, x)
    x, y = lin(x), lin(y)
    # one side two-valued and small: split
    for u, v in ((x, y), (y, x)):
        root = finite_root(u)
        lo, hi = st.facts.interval(u)
        if root is None and lo is not None and hi is not None and hi - lo <= 8:
            return num_mul(vm, st, concretise(vm, st, u), v)
    if x.terms[0][0].uid > y.terms[0][0].uid:
        x, y = y, x
    r = op("mul", x, y)
    if x.f or y.f:
        r = Lin(r.terms, r.const, True)
    return r


def num_truediv(vm, st, x, y):
    d = frac_const(y)
    if d is not None:
        if d == 0:
            raise PyRaise(ExcV("ZeroDivisionError"))
        r = scale(lin(x), Fraction(1) / d)
        return Lin(r.terms, r.const, True)
    y = lin(y)
    if st.decide(y, "=="):
        raise PyRaise(ExcV("ZeroDivisionError"))
    root = finite_root(y)
    if root is None or finite_root(lin(x)) != root:
        lo, hi = st.facts.interval(y)
        if lo is not None and hi is not None and hi - lo <= 64:
            return num_truediv(vm, st, x, concretise(vm, st, y))
    r = op("fdiv", lin(x), y)
    return Lin(r.terms, r.const, True)


def num_floordiv(vm, st, x, y):
    d = conc(y)
    if d is not None and not isinstance(d, float):
        if d == 0:
            raise PyRaise(ExcV("ZeroDivisionError"))
        x = lin(x)
        if d < 0:
            x, d = scale(x, -1), -d
        if has_frac(x) or x.f:
            return op("floordiv", x, lin(d))
        return div(x, d, rng(st))
    if isinstance(d, float):
        return op("floordiv", lin(x), lin(d))
    y = lin(y)
    if st.decide(y, "=="):
        raise PyRaise(ExcV("ZeroDivisionError"))
    lo, hi = st.facts.interval(y)
    if lo is not None and hi is not None and hi - lo <= 64 and finite_root(y) is None:
        return num_floordiv(vm, st, x, concretise(vm, st, y))
    return op("floordiv", lin(x), y)


def num_mod(vm, st, x, y):
    d = conc(y)
    if d is not None and not isinstance(d, float):
        if d == 0:
            raise PyRaise(ExcV("ZeroDivisionError"))
        if d < 0:
            return num_neg(num_mod(vm, st, num_neg(lin(x)), -d))
        return mod(lin(x), d, rng(st))
    q = num_floordiv(vm, st, x, y)
    return sub(lin(x), num_mul(vm, st, q, y))


def shift_amount(vm, st, y):
    k = conc(y)
    if k is None:
        y2 = simp(st, y)
        if not isinstance(y2, Lin):
            return y2
        if finite_root(y) is None:
            lo, hi = st.facts.interval(lin(y))
            if lo is not None and hi is not None and hi - lo <= 70:
                return concretise(vm, st, y)
    return k


def check_shift(st, y):
    if st.decide(lin(y), "<"):
        raise PyRaise(ExcV("ValueError", ("negative shift count",)))


def num_shl(vm, st, x, y):
    k = shift_amount(vm, st, y)
    if k is None:
        check_shift(st, y)
        p = op("pow2", lin(y))
        return num_mul(vm, st, x, p)
    if k < 0:
        raise PyRaise(ExcV("ValueError", ("negative shift count",)))
    return scale(lin(x), 1 << k)


def num_shr(vm, st, x, y):
    k = shift_amount(vm, st, y)
    if k is None:
        check_shift(st, y)
        return op("shr", lin(x), lin(y))
    if k < 0:
        raise PyRaise(ExcV("ValueError", ("negative shift count",)))
    return div(lin(x), 1 << k, rng(st))


def low_zero_bits(st, x, upto):
    """Largest k <= upto with 2^k dividing x for certain."""
    k = 0
    while k < upto and not mod(x, 1 << (k + 1), rng(st)).terms and mod(x, 1 << (k + 1), rng(st)).const == 0:
        k += 1
    return k


def disjoint(st, x, y):
    for a, b in ((x, y), (y, x)):
        lo, hi = st.facts.interval(a)
        if lo is not None and hi is not None and lo >= 0:
            n = hi.bit_length()
            if n == 0:
                return True
            m = mod(b, 1 << n, rng(st))
            if not m.terms and m.const == 0:
                return True
    return False


def single_bit(st, x):
    """(k) such that x is either 0 or 2^k, when visible from its normal form."""
    lo, hi = st.facts.interval(x)
    return None


def num_and(vm, st, x, y):
    b = conc(y)
    if b is not None:
        return and_const(lin(x), int(b), rng(st))
    a = conc(x)
    if a is not None:
        return and_const(lin(y), int(a), rng(st))
    x, y = simp(st, x), simp(st, y)
    if not (isinstance(x, Lin) and isinstance(y, Lin)):
        return num_and(vm, st, x, y)
    if x == y:
        return x
    if disjoint(st, x, y):
        return 0
    rx, ry = finite_root(x), finite_root(y)
    if not (rx is not None and rx == ry):
        for u, v in ((y, x), (x, y)):
            w = pow2_arg(u)
            if w is not None:
                lo, hi = st.facts.interval(w)
                if lo is not None and hi is not None and hi - lo <= 64:
                    k = concretise(vm, st, w)
                    return and_const(v, 1 << k, rng(st))
            lo, hi = st.facts.interval(u)
            if lo is not None and hi is not None and hi - lo <= 4:
                k = concretise(vm, st, u)
                return and_const(v, k, rng(st))
    if x.terms[0][0].uid > y.terms[0][0].uid:
        x, y = y, x
    return op("and", x, y)


def pow2_arg(u):
    if len(u.terms) == 1 and u.const == 0 and u.terms[0][1] == 1:
        a = u.terms[0][0]
        if a.kind == "op" and a.args[0] == "pow2":
            return a.args[1]
    return None


def num_or(vm, st, x, y):
    a, b = conc(x), conc(y)
    if a is not None and b is None:
        x, y, a, b = y, x, b, a
    if b is not None:
        return sub(add(lin(x), int(b)), and_const(lin(x), int(b), rng(st)))
    x, y = lin(x), lin(y)
    if x == y:
        return x
    return sub(add(x, y), num_and(vm, st, x, y))


def num_xor(vm, st, x, y):
    a, b = conc(x), conc(y)
    if a is not None and b is None:
        x, y, a, b = y, x, b, a
    if b is not None:
        if b < 0:
            return num_sub1(num_neg(num_xor(vm, st, x, ~b)))
        return sub(add(lin(x), int(b)), scale(and_const(lin(x), int(b), rng(st)), 2))
    x, y = lin(x), lin(y)
    return sub(add(x, y), num_mul(vm, st, num_and(vm, st, x, y), 2))


def num_sub1(x):
    return add(lin(x), -1)


def num_pow(vm, st, x, y):
    b = conc(y)
    if b is not None and isinstance(b, int) and 0 <= b <= 6:
        r = 1
        for _ in range(b):
            r = num_mul(vm, st, r, x)
        return r
    a = conc(x)
    if a == 2:
        return num_shl(vm, st, 1, y)
    if a is not None and isinstance(y, Lin):
        root = finite_root(y)
        if root is None:
            lo, hi = st.facts.interval(y)
            if lo is not None and hi is not None and hi - lo <= 70:
                k = concretise(vm, st, y)
                return a ** k
        return op("pow", lin(x), lin(y))
    raise Unsupported("power at %s" % st.where())


PYOP = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "**": lambda a, b: a ** b,
}

DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "<<": "lshift", ">>": "rshift",
          "&": "and", "|": "or", "^": "xor", "**": "pow", "@": "matmul"}


def binary(vm, st, o, x, y):
    inplace = o.endswith("=")
    b = o[:-1] if inplace else o
    if isnum(x) and isnum(y):
        if not isinstance(x, Lin) and not isinstance(y, Lin):
            try:
                return PYOP[b](x, y)
            except ZeroDivisionError:
                raise PyRaise(ExcV("ZeroDivisionError"))
            except ValueError:
                raise PyRaise(ExcV("ValueError"))
            except OverflowError:
                raise PyRaise(ExcV("OverflowError"))
        if b == "+":
            return unlin(add(x, y))
        if b == "-":
            return unlin(sub(x, y))
        if b == "*":
            r = num_mul(vm, st, x, y)
        elif b == "/":
            r = num_truediv(vm, st, x, y)
        elif b == "//":
            r = num_floordiv(vm, st, x, y)
        elif b == "%":
            r = num_mod(vm, st, x, y)
        elif b == "<<":
            r = num_shl(vm, st, x, y)
        elif b == ">>":
            r = num_shr(vm, st, x, y)
        elif b == "&":
            r = num_and(vm, st, x, y)
        elif b == "|":
            r = num_or(vm, st, x, y)
        elif b == "^":
            r = num_xor(vm, st, x, y)
        elif b == "**":
            r = num_pow(vm, st, x, y)
        else:
            raise Unsupported("operator %s" % b)
        return unlin(r) if isinstance(r, Lin) else r
    # objects with their own methods
    if isinstance(x, Ref):
        o_ = st.get(x)
        if o_.kind == "inst":
            names = (["__i%s__" % DUNDER[b]] if inplace else []) + ["__%s__" % DUNDER[b]]
            for n in names:
                m = vm.lookup_type_attr(st, o_.cls, n)
                if m is not None:
                    return CallLater(m, (x, y))
        if o_.kind == "native" and hasattr(o_.impl, "binary"):
            return o_.impl.binary(vm, st, x, o_, b, y, inplace)
    if isinstance(y, Ref):
        o_ = st.get(y)
        if o_.kind == "inst":
            m = vm.lookup_type_attr(st, o_.cls, "__r%s__" % DUNDER[b])
            if m is not None:
                return CallLater(m, (y, x))
        if o_.kind == "native" and hasattr(o_.impl, "rbinary"):
            return o_.impl.rbinary(vm, st, y, o_, b, x)
    if isinstance(x, Unk) or isinstance(y, Unk):
        if vm.tolerant:
            return Unk("binop")
        if o == "|" and any(isinstance(v, Unk) and v.tag.startswith("typing.") for v in (x, y)):
            return Unk("typing.Union[]")
        raise Unsupported("operator %s on unknown at %s" % (o, st.where()))
    if b == "%" and isstr(x):
        return percent(vm, st, x, y)
    if b == "+":
        if isstr(x) and isstr(y):
            return mkstr((x, y))
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x + y
        if isinstance(x, bytes) and isinstance(y, bytes):
            return x + y
        if isinstance(x, Ref) and st.get(x).kind == "list":
            if inplace:
                r = list_extend(vm, st, x, y)
                if isinstance(r, CallLater):
                    return CallLater(r.func, r.args, r.kwargs, lambda vm, st, v: x)
                return x
            if isinstance(y, Ref) and st.get(y).kind == "list":
                return st.alloc(ListO(list(st.get(x).items) + list(st.get(y).items)))
            raise terr("can only concatenate list")
    if b == "*":
        if isinstance(y, Lin) and not isinstance(x, Lin):
            y = concretise(vm, st, y)
        if isinstance(x, Lin):
            x = concretise(vm, st, x)
        if isinstance(x, int) and not isinstance(y, int):
            x, y = y, x
        if isinstance(y, int):
            if isinstance(x, (str, tuple, bytes)):
                return x * y
            if isinstance(x, SStr):
                return mkstr([x] * y)
            if isinstance(x, Ref) and st.get(x).kind == "list":
                return st.alloc(ListO(list(st.get(x).items) * y))
    if isinstance(x, Ref) and isinstance(y, Ref):
        ox, oy = st.get(x), st.get(y)
        if ox.kind == "set" and oy.kind == "set":
            if b == "|":
                r = dict(ox.s)
                set_merge(vm, st, r, oy.s)
            elif b == "&":
                r = {k: None for k in ox.s if set_has(vm, st, oy.s, k)}
            elif b == "-":
                r = {k: None for k in ox.s if not set_has(vm, st, oy.s, k)}
            elif b == "^":
                r = {k: None for k in ox.s if not set_has(vm, st, oy.s, k)}
                r.update({k: None for k in oy.s if not set_has(vm, st, ox.s, k)})
            else:
                raise terr(b)
            if inplace:
                st.mut(x).s = r
                return x
            return st.alloc(SetO(r))
        if ox.kind == "dict" and oy.kind == "dict" and b == "|":
            r = dict(ox.d)
            dict_merge(vm, st, r, oy.d)
            if inplace:
                st.mut(x).d = r
                return x
            return st.alloc(DictO(r))
    if isinstance(x, FrozenV) or isinstance(y, FrozenV):
        return FrozenV("binop", (b, x, y))
    raise terr("unsupported operand types for %s" % b, x, y)


def percent(vm, st, x, y):
    if not isinstance(x, str):
        raise Unsupported("percent format")
    args = y if isinstance(y, tuple) else (y,)
    out = []
    i = 0
    k = 0
    while i < len(x):
        if x[i] != "%":
            out.append(x[i])
            i += 1
            continue
        j = i + 1
        flags = width = ""
        while x[j] in "0-+ #":
            flags += x[j]
            j += 1
        while x[j] in "0123456789*":
            if x[j] == "*":
                w = concretise(vm, st, args[k]) if isinstance(args[k], Lin) else args[k]
                k += 1
                if w < 0:
                    flags += "-"
                width += str(abs(w))
            else:
                width += x[j]
            j += 1
        prec = ""
        if x[j] == ".":
            j += 1
            while x[j] in "0123456789":
                prec += x[j]
                j += 1
            prec = "." + (prec or "0")
        conv = x[j]
        i = j + 1
        if conv == "%":
            out.append("%")
            continue
        if k >= len(args):
            raise terr("not enough arguments for format string")
        v = args[k]
        k += 1
        if conv == "i" or conv == "u":
            conv = "d"
        if conv in "xXdofFeEgG":
            if prec and conv in "xXdo":
                if width or flags.strip("0"):
                    raise Unsupported("percent format with precision")
                flags, width, prec = "0", prec[1:], ""
            if "-" in flags:
                spec = "<" + "".join(c for c in "+ #" if c in flags) + width
            else:
                spec = "".join(c for c in "+ #0" if c in flags) + width
                spec = spec.replace("+ ", "+")
            if isinstance(v, (str, SStr)) or v is None:
                raise terr("a number is required")
            if conv == "d" and isinstance(v, float):
                raise Unsupported("percent format of a float")
            out.append(format_(vm, st, v, spec + prec + conv, None))
        elif conv in "cs":
            v = to_chr(vm, st, v) if conv == "c" and not isstr(v) else v if isstr(v) else BUILTINS["str"].impl(vm, st, (v,), {})
            if not isstr(v):
                raise Unsupported("percent format")
            if prec:
                raise Unsupported("percent format with precision")
            out.append(pad_(vm, st, v, "-" in flags, width))
        elif conv in "ra":
            v = repr_(vm, st, v)
            if prec or width or not isstr(v):
                raise Unsupported("percent format")
            out.append(v)
        else:
            raise Unsupported("percent format")
    if k < len(args) and not (isinstance(y, Ref) and st.get(y).kind == "dict"):
        raise terr("not all arguments converted during string formatting")
    return mkstr(out)


def pad_(vm, st, v, left, width):
    if not width or width == "0":
        return v
    ch = chars_of(v)
    if ch is None:
        raise Unsupported("padded text of unknown length")
    n = " " * (int(width) - len(ch))
    return mkstr([v, n] if left else [n, v])


def unary(vm, st, o, x):
    if isnum(x):
        if not isinstance(x, Lin):
            return -x if o == "-" else (+x if o == "+" else ~x)
        if o == "-":
            return scale(x, -1)
        if o == "+":
            return x
        return sub(lin(-1), x)
    if isinstance(x, Ref) and st.get(x).kind == "inst":
        n = {"-": "__neg__", "~": "__invert__", "+": "__pos__"}[o]
        m = vm.lookup_type_attr(st, st.get(x).cls, n)
        if m is not None:
            return CallLater(m, (x,))
    if isinstance(x, Unk) and vm.tolerant:
        return Unk("unary")
    raise terr("bad operand for unary %s" % o)


# ------------------------------------------------------------------ truth and comparison

def opaque_bool(vm, st, key):
    """An undetermined boolean, the same for the same key."""
    a = mk_atom("op", ("opaque", key), 0, 1)
    return not st.decide(lin(a), "==")


def truth(vm, st, x):
    if x is None or isinstance(x, (bool, int, float, str, bytes, tuple)):
        return bool(x)
    if isinstance(x, Lin):
        return not st.decide(x, "==")
    if isinstance(x, SStr):
        for p in x.pieces:
            if isinstance(p, str) or p[0] in ("chr", "fmt"):
                return True
        n = len_(vm, st, x)
        return truth(vm, st, n)
    if isinstance(x, Ref):
        o = st.get(x)
        if o.kind == "list":
            return truth(vm, st, len_(vm, st, x))
        if o.kind == "dict":
            return bool(o.d)
        if o.kind == "set":
            return bool(o.s)
        if o.kind == "inst":
            m = vm.lookup_type_attr(st, o.cls, "__bool__")
            if m is not None:
                return CallLater(m, (x,))
            m = vm.lookup_type_attr(st, o.cls, "__len__")
            if m is not None:
                return CallLater(m, (x,), {}, lambda vm, st, v: truth(vm, st, v))
            return True
        if o.kind == "native":
            if hasattr(o.impl, "truth"):
                return o.impl.truth(vm, st, x, o)
            return True
        return True
    if isinstance(x, RangeV):
        return truth(vm, st, len_(vm, st, x))
    if isinstance(x, Unk):
        raise Unsupported("truth of unknown %s at %s" % (x.tag, st.where()))
    if isinstance(x, FrozenV):
        if x.tag == "bytes":
            return num_cmp(st, "!=", unlin(bytes_len(x)), 0)
        return opaque_bool(vm, st, ("truth", x))
    return True


CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
CMPD = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__", "==": "__eq__", "!=": "__ne__"}
REFL = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def num_cmp(st, o, x, y):
    if not isinstance(x, Lin) and not isinstance(y, Lin):
        return CMP[o](x, y)
    d = sub(x, y)
    if o == "<":
        return st.decide(d, "<") if not d.f else frac_lt(st, d)
    if o == ">=":
        return not num_cmp(st, "<", x, y)
    if o == ">":
        return num_cmp(st, "<", y, x)
    if o == "<=":
        return not num_cmp(st, "<", y, x)
    r = st.decide(canon_eq(d), "==")
    return r if o == "==" else not r


def frac_lt(st, d):
    return st.decide(d, "<")


def canon_eq(d):
    if d.terms and d.terms[0][1] < 0:
        return scale(d, -1)
    return d


def compare(vm, st, o, x, y):
    if isnum(x) and isnum(y):
        return num_cmp(st, o, x, y)
    for u, v, oo in ((x, y, o), (y, x, REFL[o])):
        if isinstance(u, Ref):
            ob = st.get(u)
            if ob.kind == "inst":
                m = vm.lookup_type_attr(st, ob.cls, CMPD[oo])
                if m is not None:
                    return CallLater(m, (u, v))
                if oo == "!=":
                    m = vm.lookup_type_attr(st, ob.cls, "__eq__")
                    if m is not None:
                        return CallLater(m, (u, v), {}, lambda vm, st, r: not truth(vm, st, r))
                fields = vm.lookup_type_attr(st, ob.cls, "__nt_fields__")
                if fields is not None:
                    tup = tuple(ob.attrs[k] for k in fields)
                    return compare(vm, st, oo, tup, v)
            if ob.kind == "native" and hasattr(ob.impl, "compare"):
                return ob.impl.compare(vm, st, oo, u, ob, v)
    if isinstance(x, Unk) or isinstance(y, Unk):
        if vm.tolerant:
            return Unk("cmp")
        raise Unsupported("comparison with unknown at %s" % st.where())
    if o in ("==", "!="):
        r = equals(vm, st, x, y)
        return r if o == "==" else not r
    if isinstance(x, str) and isinstance(y, str) or isinstance(x, bytes) and isinstance(y, bytes):
        return CMP[o](x, y)
    if isstr(x) and isstr(y):
        return str_order(vm, st, o, x, y)
    lx, ly = seq_items(st, x), seq_items(st, y)
    if lx is not None and ly is not None and type(x) == type(y):
        for a, b in zip(lx, ly):
            r = compare(vm, st, "==", a, b)
            if isinstance(r, CallLater):
                raise Unsupported("nested comparison")
            if not r:
                r = compare(vm, st, o, a, b)
                if isinstance(r, CallLater):
                    raise Unsupported("nested comparison")
                return r
        return CMP[o](len(lx), len(ly))
    if isinstance(x, Ref) and isinstance(y, Ref) and st.get(x).kind == st.get(y).kind == "set":
        a, b = st.get(x).s, st.get(y).s
        if symbolic_keys(a) or symbolic_keys(b):
            if o in (">", ">="):
                o, a, b = {">": "<", ">=": "<="}[o], b, a
            if not all(set_has(vm, st, b, k) for k in a):
                return False
            return o == "<=" or not all(set_has(vm, st, a, k) for k in b)
        return CMP[o](set(a), set(b))
    if isinstance(x, FrozenV) or isinstance(y, FrozenV):
        return opaque_bool(vm, st, ("cmp", o, x, y))
    raise terr("unorderable", x, y)


def chars_of(x):
    """List of code points (int or Lin) if the string's length is known."""
    if isinstance(x, str):
        return [ord(c) for c in x]
    out = []
    for p in x.pieces:
        if isinstance(p, str):
            out.extend(ord(c) for c in p)
        elif p[0] == "chr":
            out.append(p[1])
        else:
            return None
    return out


def str_order(vm, st, o, x, y):
    a, b = chars_of(x), chars_of(y)
    if a is None or b is None:
        return opaque_bool(vm, st, ("cmp", o, x, y))
    for p, q in zip(a, b):
        if not num_cmp(st, "==", p, q):
            return num_cmp(st, o, p, q)
    return CMP[o](len(a), len(b))


def seq_items(st, x):
    if isinstance(x, tuple):
        return x
    if isinstance(x, Ref) and st.get(x).kind == "list":
        return st.get(x).items
    return None


def str_equal(vm, st, x, y):
    if x == y:
        return True
    if isinstance(x, str) and isinstance(y, str):
        return False
    a, b = chars_of(x), chars_of(y)
    if a is not None and b is not None:
        if len(a) != len(b):
            return False
        for p, q in zip(a, b):
            if not num_cmp(st, "==", p, q):
                return False
        return True
    px = list(x.pieces) if isinstance(x, SStr) else [x]
    py = list(y.pieces) if isinstance(y, SStr) else [y]
    # strip common prefix / suffix
    while px and py and px[0] == py[0]:
        px.pop(0), py.pop(0)
    while px and py and px[-1] == py[-1]:
        px.pop(), py.pop()
    if px and py:
        if isinstance(px[0], str) and isinstance(py[0], str):
            n = min(len(px[0]), len(py[0]))
            if px[0][:n] != py[0][:n]:
                return False
        if isinstance(px[-1], str) and isinstance(py[-1], str):
            n = min(len(px[-1]), len(py[-1]))
            if px[-1][-n:] != py[-1][-n:]:
                return False
        if len(px) == len(py) == 1 and not isinstance(px[0], str) and not isinstance(py[0], str) \
                and px[0][0] == py[0][0] == "fmt" and px[0][2] == py[0][2]:
            return num_cmp(st, "==", px[0][1], py[0][1])
    k = (SStr(tuple(px)), SStr(tuple(py)))
    k = tuple(sorted(k, key=repr))
    return opaque_bool(vm, st, ("streq",) + k)


def equals(vm, st, x, y):
    """Equality without user-defined __eq__."""
    if isnum(x) and isnum(y):
        return num_cmp(st, "==", x, y)
    if isstr(x) and isstr(y):
        return str_equal(vm, st, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        return all_eq(vm, st, x, y)
    if isinstance(x, Ref) and isinstance(y, Ref):
        if x == y:
            return True
        a, b = st.get(x), st.get(y)
        if a.kind != b.kind:
            return False
        if a.kind == "list":
            if len(a.items) != len(b.items):
                return False
            return all_eq(vm, st, a.items, b.items)
        if a.kind == "dict":
            if symbolic_keys(a.d) or symbolic_keys(b.d):
                if len(a.d) != len(b.d):
                    return False
                xs, ys = [], []
                for k in a.d:
                    f = dict_find(vm, st, list(b.d), b.d, k)
                    if f is NULL:
                        return False
                    xs.append(a.d[k])
                    ys.append(b.d[f])
                return all_eq(vm, st, xs, ys)
            if set(a.d) != set(b.d):
                return False
            return all_eq(vm, st, [a.d[k] for k in a.d], [b.d[k] for k in a.d])
        if a.kind == "set":
            if symbolic_keys(a.s) or symbolic_keys(b.s):
                return all(set_has(vm, st, b.s, k) for k in a.s) and all(set_has(vm, st, a.s, k) for k in b.s)
            return set(a.s) == set(b.s)
        return False
    if isinstance(x, RangeV) and isinstance(y, RangeV):
        lx, ly = len_(vm, st, x), len_(vm, st, y)
        if not num_cmp(st, "==", lx, ly):
            return False
        if num_cmp(st, "==", lx, 0):
            return True
        if not num_cmp(st, "==", x.start, y.start):
            return False
        if num_cmp(st, "==", lx, 1):
            return True
        return num_cmp(st, "==", x.step, y.step)
    if isinstance(x, FrozenV) or isinstance(y, FrozenV):
        if x is None or y is None:
            return False
        if x == y:
            return True
        return opaque_bool(vm, st, ("eq", x, y))
    if isinstance(x, Ref) or isinstance(y, Ref):
        return False
    if isinstance(x, Unk) or isinstance(y, Unk):
        raise Unsupported("comparison with unknown at %s" % st.where())
    if type(x) != type(y):
        return False
    return x == y


def all_eq(vm, st, a, b):
    for p, q in zip(a, b):
        r = compare(vm, st, "==", p, q)
        if isinstance(r, CallLater):
            raise Unsupported("nested __eq__ at %s" % st.where())
        if not r:
            return False
    return True


def is_(vm, st, x, y):
    if isinstance(x, Unk) or isinstance(y, Unk):
        if x is y:
            return True
        raise Unsupported("identity of unknown at %s" % st.where())
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x == y
    if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
        return x is y
    if isinstance(x, (TypeV, BuiltinV, FuncV)) or isinstance(y, (TypeV, BuiltinV, FuncV)):
        return x is y
    if isnum(x) and isnum(y):
        return num_cmp(st, "==", x, y)
    return x is y or (type(x) == type(y) and isinstance(x, (str, tuple)) and x == y)


def contains(vm, st, c, x):
    if isinstance(c, Ref):
        o = st.get(c)
        if o.kind == "inst":
            m = vm.lookup_type_attr(st, o.cls, "__contains__")
            if m is not None:
                return CallLater(m, (c, x))
            return CallLater(PRELUDE["_contains"], (c, x))
        if o.kind == "native":
            return o.impl.contains(vm, st, c, o, x)
        if o.kind == "dict":
            return dict_find(vm, st, list(o.d), o.d, x) is not NULL
        if o.kind == "set":
            return dict_find(vm, st, list(o.s), o.s, x) is not NULL
        if o.kind == "list":
            if isinstance(x, Lin) and len(o.items) > 4 and all(isinstance(v, int) for v in o.items):
                return int_member(vm, st, x, o.items)
            return items_contain(vm, st, o.items, x)
        if o.kind in ("iter", "gen"):
            return CallLater(PRELUDE["_contains"], (c, x))
    if isinstance(c, tuple):
        if isinstance(x, Lin) and len(c) > 4 and all(isinstance(v, int) for v in c):
            return int_member(vm, st, x, c)
        return items_contain(vm, st, c, x)
    if isinstance(c, RangeV):
        if isinstance(x, (bool, int, Lin)):
            s = conc(c.step)
            if s is None:
                raise Unsupported("range step")
            if s > 0:
                if num_cmp(st, "<", x, c.start) or num_cmp(st, ">=", x, c.stop):
                    return False
            else:
                if num_cmp(st, ">", x, c.start) or num_cmp(st, "<=", x, c.stop):
                    return False
            if abs(s) == 1:
                return True
            return num_cmp(st, "==", num_mod(vm, st, sub(x, c.start), abs(s)), 0)
        return False
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isstr(c) and isstr(x):
        a, b = chars_of(c), chars_of(x)
        if a is not None and b is not None and len(b) == 1:
            for p in a:
                if num_cmp(st, "==", p, b[0]):
                    return True
            return False
        if a is not None and b is not None:
            return CallLater(PRELUDE["_text_contains"], (c, x))
        if isinstance(x, str) and isinstance(c, SStr):
            for p in c.pieces:
                if isinstance(p, str) and x in p:
                    return True
            if all(isinstance(p, str) or (p[0] == "fmt" and x not in "0123456789ABCDEFabcdef") for p in c.pieces) and len(x) == 1:
                return False
        return opaque_bool(vm, st, ("in", c, x))
    if isinstance(c, Unk):
        raise Unsupported("membership in unknown %s at %s" % (c.tag, st.where()))
    if isinstance(c, FrozenV) and c.tag == "bytes" or isinstance(c, bytes) and isinstance(x, Lin):
        return CallLater(PRELUDE["_bytes_contains"], (c, x))
    if isinstance(c, bytes) and isinstance(x, (int, bytes)):
        return x in c
    if isinstance(c, FrozenV):
        return opaque_bool(vm, st, ("in", c, x))
    raise terr("argument is not iterable", c)


def items_contain(vm, st, items, x):
    for v in items:
        r = compare(vm, st, "==", v, x)
        if isinstance(r, CallLater):
            return CallLater(PRELUDE["_contains"], (st.alloc(ListO(list(items))), x))
        if r:
            return True
    return False


def int_member(vm, st, x, vals):
    """x in {vals}: split on the maximal runs."""
    vs = sorted({int(v) for v in vals})
    runs = []
    for v in vs:
        if runs and runs[-1][1] == v - 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    lo, hi = 0, len(runs)
    while hi - lo > 0:
        m = (lo + hi) // 2
        if num_cmp(st, "<", x, runs[m][0]):
            hi = m
        elif num_cmp(st, ">", x, runs[m][1]):
            lo = m + 1
        else:
            return True
    return False


def symbolic_keys(d):
    return any(isinstance(k, (Lin, SStr, tuple, Unk, FrozenV)) for k in d)


def set_has(vm, st, s, x):
    return dict_find(vm, st, list(s), s, x) is not NULL


def set_merge(vm, st, s, items):
    """Adds the items to s, comparing symbolic members by value."""
    for x in items:
        if dict_find(vm, st, list(s), s, x) is NULL:
            s[simp(st, x) if isinstance(x, Lin) else x] = None


def dict_merge(vm, st, d, e):
    for x, v in e.items():
        f = dict_find(vm, st, list(d), d, x)
        d[(simp(st, x) if isinstance(x, Lin) else x) if f is NULL else f] = v


def dict_find(vm, st, keys, d, x):
    """Matching key, or NULL."""
    if isinstance(x, Lin):
        x = simp(st, x)
    if isinstance(x, (Lin, int, float)):
        syms = [k for k in keys if isinstance(k, Lin)]
        if isinstance(x, Lin) and x in syms:
            return x
        for k in syms:
            if num_cmp(st, "==", x, k):
                return k
    if isinstance(x, Lin):
        ints = sorted(k for k in keys if isinstance(k, (int, float)))
        lo, hi = 0, len(ints)
        while hi - lo > 0:
            m = (lo + hi) // 2
            if num_cmp(st, "<", x, ints[m]):
                hi = m
            elif num_cmp(st, "==", x, ints[m]):
                return ints[m]
            else:
                lo = m + 1
        return NULL
    if isinstance(x, SStr) or isinstance(x, tuple):
        if x in d:
            return x
        for k in keys:
            if type(k) == type(x) or isstr(k) and isstr(x):
                if equals(vm, st, k, x):
                    return k
        return NULL
    if isinstance(x, (Unk,)):
        raise Unsupported("dictionary key unknown at %s" % st.where())
    if isinstance(x, FrozenV):
        if x in d:
            return x
        for k in keys:
            if equals(vm, st, k, x):
                return k
        return NULL
    if isinstance(x, Ref):
        o = st.get(x)
        if o.kind in ("list", "dict", "set"):
            raise terr("unhashable type")
        if o.kind == "inst":
            f = vm.lookup_type_attr(st, o.cls, "__eq__")
            if f is not None:
                raise Unsupported("user-defined hash at %s" % st.where())
    try:
        if x in d:
            for k in keys:
                if isinstance(k, SStr) and not isinstance(x, SStr) and isstr(x):
                    if str_equal(vm, st, k, x):
                        return k
            return x
    except TypeError:
        raise terr("unhashable")
    if isstr(x):
        for k in keys:
            if isinstance(k, SStr) and str_equal(vm, st, k, x):
                return k
    return NULL


# ------------------------------------------------------------------ sizes, items

def len_(vm, st, x):
    if isinstance(x, (str, tuple, bytes)):
        return len(x)
    if isinstance(x, SStr):
        n = 0
        for p in x.pieces:
            if isinstance(p, str):
                n += len(p)
            elif p[0] == "chr":
                n += 1
            else:
                a = mk_atom("op", ("len", p), 0 if p[0] == "sym" else 1, None)
                n = add(n, lin(a))
        return n
    if isinstance(x, RangeV):
        s = conc(x.step)
        if s is None:
            raise Unsupported("range step")
        d = sub(x.stop, x.start) if s > 0 else sub(x.start, x.stop)
        s = abs(s)
        n = div(add(d, s - 1), s, rng(st)) if s != 1 else d
        if not n.terms:
            return max(0, n.const)
        if st.decide(n, "<"):
            return 0
        return n
    if isinstance(x, Ref):
        o = st.get(x)
        if o.kind == "list":
            return len(o.items)
        if o.kind == "dict":
            return len(o.d)
        if o.kind == "set":
            return len(o.s)
        if o.kind == "inst":
            m = vm.lookup_type_attr(st, o.cls, "__len__")
            if m is not None:
                return CallLater(m, (x,))
            fields = vm.lookup_type_attr(st, o.cls, "__nt_fields__")
            if fields is not None:
                return len(fields)
        if o.kind == "native":
            return o.impl.len_(vm, st, x, o)
    if isinstance(x, Unk):
        if vm.tolerant:
            return Unk("len")
        raise Unsupported("len of unknown at %s" % st.where())
    if isinstance(x, FrozenV):
        if x.tag == "bytes":
            return x.data[2] if x.data[1] == 0 else unlin(sub(x.data[2], x.data[1]))
        return lin(mk_atom("op", ("len", x), 0, None))
    raise terr("object has no len()")


def concrete_items(vm, st, v, n=None):
    """Items of a container whose size is known, else None."""
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, (str, bytes)):
        return list(v)
    if isinstance(v, SStr):
        ch = chars_of(v)
        return None if ch is None else [mkstr((("chr", c),)) if isinstance(c, Lin) else chr(c) for c in ch]
    if isinstance(v, RangeV):
        k = len_(vm, st, v)
        k = simp(st, k)
        if isinstance(k, Lin):
            lo, hi = st.facts.interval(k)
            if lo is not None and hi is not None and hi - lo <= 40:
                k = concretise(vm, st, k)
            else:
                return None
        if k > 100000:
            return None
        s = conc(v.step)
        return [unlin(add(v.start, i * s)) if isinstance(v.start, Lin) else v.start + i * s for i in range(k)]
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == "list":
            return list(o.items)
        if o.kind == "dict":
            return list(o.d)
        if o.kind == "set":
            return list(o.s)
        if o.kind == "inst":
            fields = vm.lookup_type_attr(st, o.cls, "__nt_fields__")
            if fields is not None:
                return [o.attrs[k] for k in fields]
        if o.kind == "iter" and o.how == "seq":
            items = o.src if isinstance(o.src, (list, tuple)) else concrete_items(vm, st, o.src)
            if items is None:
                return None
            r = list(items)[o.pos:]
            st.mut(v).pos = o.pos + len(r)
            return r
        if o.kind == "native" and hasattr(o.impl, "items"):
            return o.impl.items(vm, st, v, o)
        return None
    if isinstance(v, FrozenV) and v.tag == "bytes":
        n = conc(unlin(bytes_len(v)))
        if n is not None and n <= 4096:
            return [unlin(read(v.data[0], add(lin(v.data[1]), i))) for i in range(n)]
    return None


# ------------------------------------------------------------------ indexing

def norm_index(vm, st, k, n, exc="IndexError"):
    """Normalise an index against length n; raises IndexError as Python does."""
    if isinstance(k, bool):
        k = int(k)
    if not isinstance(k, (int, Lin)):
        raise terr("indices must be integers")
    if isinstance(k, Lin) and k.f:
        raise terr("float index")
    k = simp(st, k)
    if num_cmp(st, "<", k, 0):
        k = unlin(add(k, n))
        if num_cmp(st, "<", k, 0):
            raise PyRaise(ExcV(exc, ("index out of range",)))
    elif num_cmp(st, ">=", k, n):
        raise PyRaise(ExcV(exc, ("index out of range",)))
    return k


def clip(vm, st, k, n, default):
    if k is None:
        return default
    k = simp(st, k)
    if num_cmp(st, "<", k, 0):
        k = unlin(add(k, n))
        if num_cmp(st, "<", k, 0):
            return 0
        return k
    if num_cmp(st, ">", k, n):
        return n
    return k


def table_of(vm, st, ref, o):
    if o.table is None:
        its = o.items
        if len(its) and all(type(v) is int for v in its):
            o.table = Table("list%d" % ref.id, its)
        else:
            o.table = False
    return o.table or None


_tuple_tables = {}


def getitem(vm, st, o, k):
    if isinstance(o, Ref):
        ob = st.get(o)
        kind = ob.kind
        if kind == "list":
            n = len(ob.items)
            if isinstance(k, SliceV):
                return st.alloc(ListO(slice_items(vm, st, ob.items, k)))
            k = norm_index(vm, st, k, n)
            if isinstance(k, int):
                return ob.items[k]
            t = table_of(vm, st, o, ob)
            if t is not None:
                return unlin(read(t, k))
            return pick(vm, st, ob.items, k)
        if kind == "dict":
            f = dict_find(vm, st, list(ob.d), ob.d, k)
            if f is NULL:
                dd = ob.d.get(("__default__",))
                if dd is not None:
                    return CallLater(dd, (), {}, lambda vm, st, v: store_default(st, o, k, v))
                raise PyRaise(ExcV("KeyError", (k,)))
            return ob.d[f]
        if kind == "inst":
            m = vm.lookup_type_attr(st, ob.cls, "__getitem__")
            if m is not None:
                return CallLater(m, (o, k))
            fields = vm.lookup_type_attr(st, ob.cls, "__nt_fields__")
            if fields is not None:
                return getitem(vm, st, tuple(ob.attrs[x] for x in fields), k)
        if kind == "native":
            return ob.impl.getitem(vm, st, o, ob, k)
        if kind == "class":
            return o           # generic alias, e.g. Class[int]
        raise terr("not subscriptable")
    if isinstance(o, tuple):
        if isinstance(k, SliceV):
            return tuple(slice_items(vm, st, o, k))
        k = norm_index(vm, st, k, len(o))
        if isinstance(k, int):
            return o[k]
        if all(type(v) is int for v in o):
            t = _tuple_tables.get(o)
            if t is None:
                t = _tuple_tables[o] = Table("tuple%d" % len(_tuple_tables), list(o))
            return unlin(read(t, k))
        return pick(vm, st, o, k)
    if isinstance(o, str) or isinstance(o, SStr):
        if isinstance(o, str) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise PyRaise(ExcV("IndexError"))
        ch = chars_of(o)
        if ch is None:
            return str_opaque_item(vm, st, o, k)
        if isinstance(k, SliceV):
            return mkchars(slice_items(vm, st, ch, k))
        k = norm_index(vm, st, k, len(ch))
        if isinstance(k, int):
            return mkchars([ch[k]])
        if all(isinstance(v, int) for v in ch):
            t = _tuple_tables.get(tuple(ch))
            if t is None:
                t = _tuple_tables[tuple(ch)] = Table("text%d" % len(_tuple_tables), ch)
            return mkstr((("chr", read(t, k)),))
        return mkchars([pick(vm, st, ch, k)])
    if isinstance(o, bytes):
        if isinstance(k, SliceV):
            return bytes(slice_items(vm, st, list(o), k))
        k = norm_index(vm, st, k, len(o))
        if isinstance(k, int):
            return o[k]
        return unlin(read(Table("bytes", list(o)), k))
    if isinstance(o, RangeV):
        n = len_(vm, st, o)
        if isinstance(k, SliceV):
            if k.step not in (None, 1):
                raise Unsupported("range slice")
            a = clip(vm, st, k.start, n, 0)
            b = clip(vm, st, k.stop, n, n)
            s = conc(o.step)
            return RangeV(unlin(add(o.start, scale(lin(a), s))), unlin(add(o.start, scale(lin(b), s))), s)
        k = norm_index(vm, st, k, n)
        return unlin(add(o.start, num_mul(vm, st, k, o.step)))
    if isinstance(o, FrozenV):
        if o.tag == "bytes":
            return bytes_item(vm, st, o, k)
        return FrozenV("item", (o, slice_key(k)))
    if isinstance(o, Unk):
        if vm.tolerant or o.tag.startswith("typing."):
            return Unk(o.tag + "[]")
        raise Unsupported("subscript of unknown %s at %s" % (o.tag, st.where()))
    if isinstance(o, TypeV):
        return o
    raise terr("not subscriptable", o)


def store_default(st, ref, k, v):
    st.mut(ref).d[k] = v
    return v


def slice_key(k):
    if isinstance(k, SliceV):
        return ("slice", k.start, k.stop, k.step)
    return k


def mkchars(ch):
    return mkstr(tuple(("chr", lin(c)) if isinstance(c, Lin) else chr(c) for c in ch)) if ch else ""


def str_opaque_item(vm, st, o, k):
    pcs = list(o.pieces)
    if isinstance(k, SliceV) and k.step is None:
        a, b = conc(k.start) if k.start is not None else 0, conc(k.stop) if k.stop is not None else None
        # literal prefix / suffix removal
        if isinstance(a, int) and a >= 0 and k.stop is None and isinstance(pcs[0], str) and a <= len(pcs[0]):
            return mkstr([pcs[0][a:]] + pcs[1:])
        if a == 0 and isinstance(b, int) and b >= 0 and isinstance(pcs[0], str) and b <= len(pcs[0]):
            return pcs[0][:b]
        if a == 0 and isinstance(b, int) and b < 0 and isinstance(pcs[-1], str) and -b <= len(pcs[-1]):
            return mkstr(pcs[:-1] + [pcs[-1][:b]])
        if isinstance(a, int) and a < 0 and k.stop is None and isinstance(pcs[-1], str) and -a <= len(pcs[-1]):
            return pcs[-1][a:]
    elif isinstance(k, int) and not isinstance(k, bool):
        if 0 <= k and isinstance(pcs[0], str) and k < len(pcs[0]):
            return pcs[0][k]
        if k < 0 and isinstance(pcs[-1], str) and -k <= len(pcs[-1]):
            return pcs[-1][k]
    if isinstance(k, SliceV) and k.step is None and k.stop is None and conc(k.start) == 2 and isinstance(pcs[0], tuple) and pcs[0][0] == "fmt" \
            and pcs[0][2] in ("#x", "#X", "#b", "#o") and num_cmp(st, ">=", pcs[0][1], 0):
        return mkstr([("fmt", pcs[0][1], pcs[0][2][1:])] + pcs[1:])
    n = len_(vm, st, o)
    if not isinstance(k, SliceV):
        norm_index(vm, st, k, n)
    return SStr((("sym", "item", o, slice_key(k)),))


def pick(vm, st, items, k):
    """items[k] for a symbolic in-range k: split, grouping equal neighbours."""
    lo, hi = st.facts.interval(lin(k))
    lo, hi = max(lo or 0, 0), min(len(items) - 1 if hi is None else hi, len(items) - 1)
    if hi - lo > 700:
        raise Unsupported("symbolic index into a list of %d objects at %s" % (len(items), st.where()))
    while lo < hi:
        first = items[lo]
        if all(items[i] is first or (type(items[i]) == type(first) and not isinstance(first, Ref) and items[i] == first) for i in range(lo, hi + 1)):
            return first
        m = (lo + hi + 1) // 2
        if num_cmp(st, "<", k, m):
            hi = m - 1
        else:
            lo = m
    return items[lo]


def slice_items(vm, st, items, k):
    n = len(items)
    step = k.step
    if step in (None, 1) and n > 64 and isinstance(k.start, Lin) and isinstance(k.stop, Lin):
        a, b = simp(st, k.start), simp(st, k.stop)
        m = simp(st, sub(lin(b), lin(a)))
        lo, hi = st.facts.interval(lin(m))
        if isinstance(a, Lin) and isinstance(b, Lin) and hi is not None and hi <= 64 and all(type(x) is int for x in items) \
                and num_cmp(st, ">=", a, 0) and num_cmp(st, "<=", b, n):
            # a short piece at an unknown place
            if num_cmp(st, "<=", m, 0):
                return []
            m = concretise(vm, st, m)
            key = tuple(items)
            t = _tuple_tables.get(key)
            if t is None:
                t = _tuple_tables[key] = Table("tuple%d" % len(_tuple_tables), list(key))
            return [unlin(read(t, add(lin(a), i))) for i in range(m)]
    vals = []
    for v in (k.start, k.stop, step):
        if isinstance(v, Lin):
            v = simp(st, v)
            if isinstance(v, Lin):
                lo, hi = st.facts.interval(v)
                if lo is not None and lo >= n:
                    v = n
                else:
                    if (hi is None or hi > n) and num_cmp(st, ">=", v, n):
                        v = n
                    elif (lo is None or lo < -n) and num_cmp(st, "<", v, -n):
                        v = -n
                    else:
                        v = concretise(vm, st, v)
        vals.append(v)
    return list(items)[slice(*vals)]


def setitem(vm, st, o, k, v):
    if isinstance(o, Ref):
        ob = st.get(o)
        if ob.kind == "list":
            if isinstance(k, SliceV):
                its = concrete_items(vm, st, v)
                if its is None:
                    return CallLater(PRELUDE["_tolist"], (v,), {}, lambda vm, st, l: setitem(vm, st, o, k, l))
                a = conc(clip(vm, st, k.start, len(ob.items), 0))
                b = conc(clip(vm, st, k.stop, len(ob.items), len(ob.items)))
                if a is None or b is None or k.step is not None:
                    raise Unsupported("slice assignment at %s" % st.where())
                st.mut(o, "setitem").items[a:b] = its
                return None
            k = norm_index(vm, st, k, len(ob.items))
            if isinstance(k, Lin):
                k = concretise(vm, st, k)
            m = st.mut(o, "setitem")
            m.items[k] = v
            m.table = None
            return None
        if ob.kind == "dict":
            f = dict_find(vm, st, list(ob.d), ob.d, k)
            key = k if f is NULL else f
            if isinstance(key, Lin):
                key = simp(st, key)
            st.mut(o, "setitem").d[key] = v
            return None
        if ob.kind == "inst":
            m = vm.lookup_type_attr(st, ob.cls, "__setitem__")
            if m is not None:
                return CallLater(m, (o, k, v))
        if ob.kind == "native":
            return ob.impl.setitem(vm, st, o, ob, k, v)
    if isinstance(o, Unk) and vm.tolerant:
        return None
    raise terr("does not support item assignment")


def delitem(vm, st, o, k):
    if isinstance(o, Ref):
        ob = st.get(o)
        if ob.kind == "list":
            if isinstance(k, SliceV):
                a = conc(clip(vm, st, k.start, len(ob.items), 0))
                b = conc(clip(vm, st, k.stop, len(ob.items), len(ob.items)))
                if a is None or b is None:
                    raise Unsupported("slice deletion at %s" % st.where())
                m = st.mut(o, "delitem")
                if k.step is None:
                    if b > a:
                        del m.items[a:b]
                else:
                    del m.items[a:b:k.step]
                m.table = None
                return None
            k = norm_index(vm, st, k, len(ob.items))
            if isinstance(k, Lin):
                k = concretise(vm, st, k)
            m = st.mut(o, "delitem")
            del m.items[k]
            m.table = None
            return None
        if ob.kind == "dict":
            f = dict_find(vm, st, list(ob.d), ob.d, k)
            if f is NULL:
                raise PyRaise(ExcV("KeyError", (k,)))
            del st.mut(o, "delitem").d[f]
            return None
        if ob.kind == "inst":
            m = vm.lookup_type_attr(st, ob.cls, "__delitem__")
            if m is not None:
                return CallLater(m, (o, k))
        if ob.kind == "native":
            return ob.impl.delitem(vm, st, o, ob, k)
    raise terr("does not support item deletion")


# ------------------------------------------------------------------ iteration

def get_iter(vm, st, v):
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind in ("iter", "gen"):
            return v
        if o.kind == "list":
            return st.alloc(IterO("list", v, 0))
        if o.kind in ("dict", "set"):
            return st.alloc(IterO("seq", tuple(o.d if o.kind == "dict" else o.s), 0))
        if o.kind == "inst":
            m = vm.lookup_type_attr(st, o.cls, "__iter__")
            if m is not None:
                return CallLater(m, (v,), {}, lambda vm, st, r: get_iter(vm, st, r) if not (isinstance(r, Ref) and st.get(r).kind == "inst") else r)
            fields = vm.lookup_type_attr(st, o.cls, "__nt_fields__")
            if fields is not None:
                return st.alloc(IterO("seq", tuple(o.attrs[k] for k in fields), 0))
            m = vm.lookup_type_attr(st, o.cls, "__getitem__")
            if m is not None:
                return CallLater(PRELUDE["_getitem_iter"], (v,))
        if o.kind == "native":
            return o.impl.get_iter(vm, st, v, o)
        if o.kind == "class" and "__enum_members__" in o.attrs:
            return st.alloc(IterO("seq", tuple(o.attrs["__enum_members__"]), 0))
    if isinstance(v, (tuple, str, bytes)):
        return st.alloc(IterO("seq", tuple(v), 0))
    if isinstance(v, SStr):
        its = concrete_items(vm, st, v)
        if its is None:
            raise Unsupported("iteration over an unknown string at %s" % st.where())
        return st.alloc(IterO("seq", tuple(its), 0))
    if isinstance(v, RangeV):
        return st.alloc(IterO("range", v, 0))
    if isinstance(v, Unk):
        if vm.tolerant:
            return st.alloc(IterO("seq", (), 0))
        raise Unsupported("iteration over unknown %s at %s" % (v.tag, st.where()))
    if isinstance(v, FrozenV) and v.tag == "bytes":
        its = concrete_items(vm, st, v)
        if its is not None:
            return st.alloc(IterO("seq", tuple(its), 0))
        return CallLater(PRELUDE["_getitem_iter"], (v,))
    if isinstance(v, FrozenV):
        raise Unsupported("iteration over opaque %s at %s" % (v.tag, st.where()))
    raise terr("object is not iterable", v)


def next_(vm, st, it, on_end):
    o = st.get(it)
    if o.kind == "gen":
        if o.done:
            return STOP
        if o.running:
            raise PyRaise(ExcV("ValueError", ("generator already executing",)))
        g = st.mut(it, "advance")
        fr = g.frame
        g.frame = None
        g.running = True
        fr.on_ret = ("gen", it, None, on_end)
        st.frames.append(fr)
        return PUSHED
    if o.kind == "inst":
        m = vm.lookup_type_attr(st, o.cls, "__next__")
        if m is None:
            raise terr("not an iterator")
        raise Unsupported("user-defined __next__ at %s" % st.where())
    if o.kind == "native":
        return o.impl.next_(vm, st, it, o, on_end)
    if o.how == "list":
        src = st.get(o.src)
        if src.kind == "native":
            raise Unsupported("iteration")
        if o.pos < len(src.items):
            v = src.items[o.pos]
            st.mut(it, "advance").pos = o.pos + 1
            return v
        return STOP
    if o.how == "seq":
        if o.pos < len(o.src):
            v = o.src[o.pos]
            st.mut(it, "advance").pos = o.pos + 1
            return v
        return STOP
    if o.how == "range":
        r = o.src
        s = conc(r.step)
        if s is None:
            raise Unsupported("range step")
        cur = add(r.start, lin(o.pos) if not isinstance(o.pos, Lin) else o.pos)
        cur = simp(st, unlin(cur))
        if num_cmp(st, "<" if s > 0 else ">", cur, r.stop):
            st.mut(it, "advance").pos = unlin(add(o.pos, s))
            return cur
        return STOP
    raise Unsupported("iterator %s" % o.how)


def list_append(vm, st, r, v):
    o = st.get(r)
    if o.kind == "native":
        return o.impl.append(vm, st, r, o, v)
    m = st.mut(r, "append")
    m.items.append(v)
    m.table = None


def list_extend(vm, st, r, v):
    o = st.get(r)
    if o.kind == "native":
        return o.impl.extend(vm, st, r, o, v)
    its = concrete_items(vm, st, v)
    if its is None:
        return CallLater(PRELUDE["_extend"], (r, v))
    m = st.mut(r, "extend")
    m.items.extend(its)
    m.table = None
    return None


# ------------------------------------------------------------------ formatting

def pad_fmt(v, spec):
    return format(v, spec)


def format_(vm, st, v, spec, conv):
    if isinstance(spec, SStr):
        raise Unsupported("symbolic format spec")
    if conv == "repr":
        v = repr_(vm, st, v)
    if isinstance(v, Lin):
        v = simp(st, v)
        if not isinstance(v, Lin):
            return format(v, spec)
        if not spec or spec == "d":
            spec = ""
        return mkstr((("fmt", v, spec),))
    if isinstance(v, SStr):
        if spec in ("", "s"):
            return v
        return SStr((("sym", "format", v, spec),))
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        try:
            return format(v, spec)
        except ValueError:
            raise PyRaise(ExcV("ValueError", ("format",)))
        except TypeError:
            raise terr("format")
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == "inst":
            for n in ("__format__", "__str__", "__repr__"):
                m = vm.lookup_type_attr(st, o.cls, n)
                if m is not None:
                    return CallLater(m, (v,) + ((spec,) if n == "__format__" else ()))
        if o.kind == "native" and hasattr(o.impl, "str_"):
            return o.impl.str_(vm, st, v, o)
    r = repr_(vm, st, v)
    return r


def repr_(vm, st, v):
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return repr(v)
    if isinstance(v, Lin):
        return mkstr((("fmt", v, ""),))
    if isinstance(v, SStr):
        return SStr((("sym", "repr", v),))
    if isinstance(v, tuple):
        return mkstr(["("] + _sep([repr_(vm, st, x) for x in v]) + [",)" if len(v) == 1 else ")"])
    if isinstance(v, RangeV):
        return mkstr(["range("] + _sep([repr_(vm, st, v.start), repr_(vm, st, v.stop)] + ([] if v.step == 1 else [repr_(vm, st, v.step)])) + [")"])
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == "list":
            return mkstr(["["] + _sep([repr_(vm, st, x) for x in o.items]) + ["]"])
        if o.kind == "dict":
            return mkstr(["{"] + _sep([mkstr((repr_(vm, st, k), ": ", repr_(vm, st, x))) for k, x in o.d.items()]) + ["}"])
        return "<object>"
    return SStr((("sym", "repr", v),))


def _sep(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(", ")
        out.append(x)
    return out


def to_chr(vm, st, n):
    if isinstance(n, Lin):
        n = simp(st, n)
    if not isinstance(n, (int, Lin)):
        raise terr("chr")
    if num_cmp(st, "<", n, 0) or num_cmp(st, ">=", n, 0x110000):
        raise PyRaise(ExcV("ValueError", ("chr() arg not in range(0x110000)",)))
    if isinstance(n, int):
        return chr(n)
    return SStr((("chr", n),))


# ------------------------------------------------------------------ builtins

def builtin(*names):
    def deco(fn):
        for n in names:
            BUILTINS[n] = BuiltinV(n, fn)
        return fn
    return deco


def btype(name):
    def deco(fn):
        BUILTINS[name] = TypeV(name, fn)
        return fn
    return deco


def call_builtin(vm, st, name, args, kw=None):
    return BUILTINS[name].impl(vm, st, tuple(args), kw or {})


for _n in list(EXC_BASES):
    def _mk(n):
        def impl(vm, st, args, kw):
            return ExcV(n, tuple(args))
        return impl
    BUILTINS[_n] = TypeV(_n, _mk(_n))

BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["NotImplemented"] = FrozenV("NotImplemented", ())
BUILTINS["__build_class__"] = BuiltinV("__build_class__", build_class)


@builtin("len")
def _(vm, st, a, k):
    return len_(vm, st, a[0])


@builtin("callable")
def _(vm, st, a, k):
    v = a[0]
    if isinstance(v, Ref):
        o = st.get(v)
        return o.kind == "class" or (o.kind == "inst" and vm.lookup_type_attr(st, o.cls, "__call__") is not None)
    return isinstance(v, (FuncV, BuiltinV, TypeV, BoundV, PartialV, GetterV))


@builtin("print")
def _(vm, st, a, k):
    st.event(("print",))
    return None


@builtin("input")
def _(vm, st, a, k):
    return SStr((("sym", "input"),))


@builtin("open")
def _(vm, st, a, k):
    st.event(("open", a))
    if vm.files is not None:
        from .natives import opened
        return opened(vm, st, a[0], a[1] if len(a) > 1 else k.get("mode", "r"))
    return Unk("open")


@builtin("eval", "exec", "compile", "__import__")
def _(vm, st, a, k):
    st.event(("eval", a[0] if a else None))
    return Unk("eval")


@builtin("id")
def _(vm, st, a, k):
    return lin(mk_atom("op", ("id", a[0] if not isinstance(a[0], Lin) else 0), 0, None))


@builtin("hash")
def _(vm, st, a, k):
    v = a[0]
    if isinstance(v, Ref) and st.get(v).kind == "inst":
        m = vm.lookup_type_attr(st, st.get(v).cls, "__hash__")
        if isinstance(m, FuncV):
            return CallLater(m, (v,))
    if isinstance(v, Ref) and st.get(v).kind in ("list", "dict", "set"):
        raise terr("unhashable type")
    return lin(mk_atom("op", ("hash", v), None, None))


@builtin("abs")
def _(vm, st, a, k):
    x = a[0]
    if isinstance(x, Lin):
        return scale(x, -1) if st.decide(x, "<") else x
    return abs(x)


@builtin("divmod")
def _(vm, st, a, k):
    q = binary(vm, st, "//", a[0], a[1])
    r = binary(vm, st, "%", a[0], a[1])
    return (q, r)


@builtin("pow")
def _(vm, st, a, k):
    if len(a) == 3:
        raise Unsupported("modular pow")
    return binary(vm, st, "**", a[0], a[1])


@builtin("round")
def _(vm, st, a, k):
    if isinstance(a[0], Lin):
        if not a[0].f:
            return a[0]
        raise Unsupported("round")
    return round(*a)


@builtin("ord")
def _(vm, st, a, k):
    v = a[0]
    if isinstance(v, str):
        if len(v) != 1:
            raise terr("ord")
        return ord(v)
    if isinstance(v, bytes) and len(v) == 1:
        return v[0]
    if isinstance(v, SStr):
        ch = chars_of(v)
        if ch is not None:
            if len(ch) != 1:
                raise terr("ord")
            return ch[0]
        return lin(mk_atom("op", ("ord", v), 0, 0x10FFFF))
    raise terr("ord")


@builtin("chr")
def _(vm, st, a, k):
    return to_chr(vm, st, a[0])


@builtin("hex")
def _(vm, st, a, k):
    return format_(vm, st, a[0], "#x", None)


@builtin("bin")
def _(vm, st, a, k):
    if isinstance(a[0], Lin):
        return mkstr((("fmt", a[0], "#b"),))
    return bin(a[0])


@builtin("oct")
def _(vm, st, a, k):
    return format_(vm, st, a[0], "#o", None)


@builtin("format")
def _(vm, st, a, k):
    return format_(vm, st, a[0], a[1] if len(a) > 1 else "", None)


@builtin("repr", "ascii")
def _(vm, st, a, k):
    v = a[0]
    if isinstance(v, Ref) and st.get(v).kind == "inst":
        m = vm.lookup_type_attr(st, st.get(v).cls, "__repr__")
        if m is not None:
            return CallLater(m, (v,))
    return repr_(vm, st, v)


@builtin("iter")
def _(vm, st, a, k):
    if len(a) == 2:
        return CallLater(PRELUDE["_iter2"], a)
    return get_iter(vm, st, a[0])


def next_end(default):
    def end(vm, st):
        if default is NULL:
            raise PyRaise(ExcV("StopIteration"))
        vm.finish_value(st, None, default)
    return end


@builtin("next")
def _(vm, st, a, k):
    d = a[1] if len(a) > 1 else NULL
    o = st.get(a[0]) if isinstance(a[0], Ref) else None
    if o is not None and o.kind == "inst":
        m = vm.lookup_type_attr(st, o.cls, "__next__")
        return CallLater(m, (a[0],))
    r = next_(vm, st, a[0], next_end(d))
    if r is STOP:
        if d is NULL:
            raise PyRaise(ExcV("StopIteration"))
        return d
    return r


@builtin("isinstance")
def _(vm, st, a, k):
    return isinstance_(vm, st, a[0], a[1])


@builtin("issubclass")
def _(vm, st, a, k):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    m = vm.mro(st, a[0])
    return any(c in m or c is BUILTINS["object"] for c in cs)


ABCS = {"Iterable": ("list", "tuple", "range", "str", "dict", "set", "gen", "iter", "bytes"), "Sequence": ("list", "tuple", "range", "str", "bytes"),
        "Mapping": ("dict",), "Callable": ("func",), "Iterator": ("gen", "iter"), "List": ("list",), "Dict": ("dict",), "Tuple": ("tuple",),
        "Set": ("set",), "Number": ("int", "float", "bool"), "Collection": ("list", "tuple", "range", "str", "dict", "set", "bytes")}


def kind_of(st, x):
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, float):
        return "float"
    if isinstance(x, Lin):
        return "float" if x.f else "int"
    if isstr(x):
        return "str"
    if isinstance(x, bytes) or isinstance(x, FrozenV) and x.tag == "bytes":
        return "bytes"
    if isinstance(x, tuple):
        return "tuple"
    if x is None:
        return "NoneType"
    if isinstance(x, RangeV):
        return "range"
    if isinstance(x, SliceV):
        return "slice"
    if isinstance(x, Ref):
        o = st.get(x)
        if o.kind == "native":
            return getattr(o.impl, "pytype", "object")
        return o.kind
    if isinstance(x, (FuncV, BuiltinV, BoundV, PartialV)):
        return "func"
    if isinstance(x, ExcV):
        return "exc"
    return "object"


def isinstance_(vm, st, x, c):
    if isinstance(c, tuple):
        return any(isinstance_(vm, st, x, d) for d in c)
    if isinstance(c, Ref) and st.get(c).kind == "list":
        raise terr("isinstance arg 2")
    if isinstance(x, Unk):
        raise Unsupported("isinstance of unknown %s at %s" % (x.tag, st.where()))
    if isinstance(c, Unk):
        n = c.tag.split(".")[-1]
        if n in ABCS:
            return kind_of(st, x) in ABCS[n]
        if isinstance(x, Ref) and st.get(x).kind == "native" and getattr(st.get(x).impl, "pyclass", None) == n:
            return True
        if isinstance(x, (int, str, tuple, bool, Lin, SStr)) or x is None:
            return False
        raise Unsupported("isinstance against %s at %s" % (c.tag, st.where()))
    k = kind_of(st, x)
    if isinstance(x, ExcV):
        if isinstance(c, TypeV):
            return isinstance(x.cls, str) and exc_is(x.cls, c.name) or not isinstance(x.cls, str) and any(isinstance(m, TypeV) and exc_is(m.name, c.name) for m in vm.mro(st, x.cls))
        return not isinstance(x.cls, str) and c in vm.mro(st, x.cls)
    if isinstance(x, Ref) and st.get(x).kind == "inst":
        mro = vm.mro(st, st.get(x).cls)
        if isinstance(c, TypeV):
            if c.name == "object":
                return True
            if c.name == "tuple":
                return vm.lookup_type_attr(st, st.get(x).cls, "__nt_fields__") is not None
            return any(isinstance(m, TypeV) and m.name == c.name for m in mro)
        return c in mro
    if isinstance(c, TypeV):
        n = c.name
        if n == "object":
            return True
        if n == "int":
            return k in ("int", "bool")
        if n == "type":
            return isinstance(x, TypeV) or k == "class"
        if n == "frozenset":
            return False
        return k == n
    return False


@builtin("getattr")
def _(vm, st, a, k):
    return vm.getattr(st, a[0], a[1], a[2] if len(a) > 2 else NULL)


@builtin("hasattr")
def _(vm, st, a, k):
    return vm.getattr(st, a[0], a[1], UNSET) is not UNSET


@builtin("setattr")
def _(vm, st, a, k):
    if isinstance(a[1], SStr):
        raise Unsupported("setattr with a computed name at %s" % st.where())
    r = vm.setattr(st, a[0], a[1], a[2])
    if isinstance(r, CallLater):
        return CallLater(r.func, r.args, r.kwargs, lambda vm, st, v: None)
    return None


@builtin("delattr")
def _(vm, st, a, k):
    o = st.get(a[0])
    if a[1] not in o.attrs:
        raise PyRaise(ExcV("AttributeError", (a[1],)))
    del st.mut(a[0], "delattr").attrs[a[1]]
    return None


@builtin("vars")
def _(vm, st, a, k):
    o = st.get(a[0])
    return st.alloc(DictO(dict(o.attrs)))


@builtin("globals")
def _(vm, st, a, k):
    return st.alloc(DictO(dict(st.get(st.frames[-1].globals).attrs)))


@builtin("locals")
def _(vm, st, a, k):
    f = st.frames[-1]
    return st.alloc(DictO({n: v for n, v in zip(f.ci.names, f.locals) if v is not UNSET}))


@builtin("dir")
def _(vm, st, a, k):
    o = st.get(a[0])
    names = set(o.attrs)
    if o.kind == "inst":
        for c in vm.mro(st, o.cls):
            if isinstance(c, Ref):
                names |= set(st.get(c).attrs)
    return st.alloc(ListO(sorted(names)))


@builtin("super")
def _(vm, st, a, k):
    raise Unsupported("super object")


@btype("object")
def _(vm, st, a, k):
    return st.alloc(InstO(BUILTINS["object"]))


@btype("type")
def _(vm, st, a, k):
    v = a[0]
    if len(a) == 1:
        if isinstance(v, Ref) and st.get(v).kind == "inst":
            return st.get(v).cls
        kd = kind_of(st, v)
        return BUILTINS.get(kd, Unk("type"))
    raise Unsupported("type()")


@btype("int")
def _(vm, st, a, k):
    if not a:
        return 0
    v = a[0]
    base = a[1] if len(a) > 1 else k.get("base")
    if isstr(v) or isinstance(v, bytes):
        if isinstance(v, (str, bytes)):
            try:
                return int(v, base) if base is not None else int(v)
            except ValueError:
                raise PyRaise(ExcV("ValueError", ("int()",)))
        if len(v.pieces) == 1 and v.pieces[0][0] == "fmt":
            _, n, spec = v.pieces[0]
            conv = spec[-1:] if spec else "d"
            b = {"x": 16, "X": 16, "d": 10, "b": 2, "o": 8}.get(conv, 10 if conv.isdigit() else None)
            if b == (base if base is not None else 10):
                return n
        if chars_of(v) is not None and (base is None or isinstance(base, int)):
            return CallLater(PRELUDE["_text_int"], (v, 10 if base is None else base))
        return lin(mk_atom("op", ("int", v, base if base is not None else 10), None, None))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return int(v)
    if isinstance(v, Lin):
        if not v.f and not has_frac(v):
            return v
        # truncation toward zero of an exact rational
        den = 1
        from math import gcd
        for c in [v.const] + [c for _, c in v.terms]:
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        w = scale(v, den)
        w = Lin(w.terms, w.const, False)
        if any(t[0].kind == "op" and t[0].args[0] in ("fdiv",) for t in w.terms):
            raise Unsupported("int() of a quotient at %s" % st.where())
        if st.decide(w, "<"):
            return unlin(scale(div(scale(w, -1), den, rng(st)), -1))
        return unlin(div(w, den, rng(st)))
    if isinstance(v, Ref) and st.get(v).kind == "inst":
        m = vm.lookup_type_attr(st, st.get(v).cls, "__int__") or vm.lookup_type_attr(st, st.get(v).cls, "__index__")
        if m is not None:
            return CallLater(m, (v,))
        if "value" in st.get(v).attrs:
            return st.get(v).attrs["value"]
    if isinstance(v, FrozenV):
        return lin(mk_atom("op", ("int", v, base if base is not None else 10), None, None))
    if isinstance(v, Unk):
        if vm.tolerant:
            return Unk("int")
        raise Unsupported("int of unknown at %s" % st.where())
    raise terr("int()")


@btype("bool")
def _(vm, st, a, k):
    if not a:
        return False
    t = truth(vm, st, a[0])
    return t


@btype("float")
def _(vm, st, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise PyRaise(ExcV("ValueError", ("float()",)))
    if isinstance(v, SStr) or isinstance(v, FrozenV):
        x = lin(mk_atom("op", ("float", v), None, None))
        return Lin(x.terms, x.const, True)
    if isinstance(v, Lin):
        return Lin(v.terms, v.const, True)
    if isinstance(v, (int, float)):
        return float(v)
    raise terr("float()")


@btype("str")
def _(vm, st, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (bytes,)):
        return str(v, *a[1:])
    if isinstance(v, FrozenV):
        return SStr((("sym", "str", v) + tuple(a[1:]),))
    return format_(vm, st, v, "", None)


@btype("bytes")
def _(vm, st, a, k):
    if not a:
        return b""
    its = concrete_items(vm, st, a[0])
    if its is not None and all(isinstance(x, int) for x in its):
        return bytes(its)
    if isinstance(a[0], FrozenV):
        return a[0]
    raise Unsupported("bytes()")


BUILTINS["bytearray"] = TypeV("bytearray", BUILTINS["bytes"].impl)


@btype("memoryview")
def _(vm, st, a, k):
    return a[0]


def via_list(name, make):
    """Constructor from any iterable."""
    def impl(vm, st, a, k):
        if not a:
            return make(vm, st, [])
        its = concrete_items(vm, st, a[0])
        if its is not None:
            return make(vm, st, its)
        if isinstance(a[0], Unk):
            if vm.tolerant:
                return Unk(name)
            raise Unsupported("%s of unknown %s at %s" % (name, a[0].tag, st.where()))
        if isinstance(a[0], Ref) and st.get(a[0]).kind == "native" and hasattr(st.get(a[0]).impl, "to_" + name):
            return getattr(st.get(a[0]).impl, "to_" + name)(vm, st, a[0], st.get(a[0]))
        return CallLater(PRELUDE["_tolist"], (a[0],), {}, lambda vm, st, l: make(vm, st, list(st.get(l).items)) if st.get(l).kind == "list" else l)
    BUILTINS[name] = TypeV(name, impl)


def mkset(vm, st, its):
    d = {}
    for x in its:
        f = dict_find(vm, st, list(d), d, x)
        if f is NULL:
            d[x if not isinstance(x, Lin) else simp(st, x)] = None
    return st.alloc(SetO(d))


via_list("list", lambda vm, st, its: st.alloc(ListO(its)))
via_list("tuple", lambda vm, st, its: tuple(its))
via_list("set", mkset)
via_list("frozenset", mkset)


@btype("dict")
def _(vm, st, a, k):
    d = {}
    if a:
        v = a[0]
        if isinstance(v, Ref) and st.get(v).kind == "dict":
            d.update(st.get(v).d)
        else:
            its = concrete_items(vm, st, v)
            if its is None:
                return CallLater(PRELUDE["_tolist"], (v,), {}, lambda vm, st, l: BUILTINS["dict"].impl(vm, st, (l,), k))
            for p in its:
                kv = concrete_items(vm, st, p)
                f = dict_find(vm, st, list(d), d, kv[0])
                d[kv[0] if f is NULL else f] = kv[1]
    d.update(k)
    return st.alloc(DictO(d))


@btype("range")
def _(vm, st, a, k):
    for x in a:
        if isinstance(x, Unk):
            return Unk("range")
        if not isinstance(x, (int, Lin)) or (isinstance(x, Lin) and x.f):
            raise terr("range() of non-integer")
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    if num_cmp(st, "==", a[2], 0):
        raise PyRaise(ExcV("ValueError", ("range() arg 3 must not be zero",)))
    return RangeV(*a)


@btype("slice")
def _(vm, st, a, k):
    if len(a) == 1:
        return SliceV(None, a[0])
    return SliceV(*a)


@btype("property")
def _(vm, st, a, k):
    return PropertyV(a[0] if a else None, a[1] if len(a) > 1 else k.get("fset"))


@btype("classmethod")
def _(vm, st, a, k):
    return ClassMethodV(a[0])


@btype("staticmethod")
def _(vm, st, a, k):
    return StaticMethodV(a[0])


def small_range(vm, st, v, cap=64):
    """Is v a container whose items can be listed right now without forking?"""
    if isinstance(v, RangeV):
        return None
    return concrete_items(vm, st, v) if not (isinstance(v, Ref) and st.get(v).kind == "iter") else None


def minmax(name, o):
    def impl(vm, st, a, k):
        if len(a) > 1 and "key" not in k:
            best = a[0]
            for x in a[1:]:
                r = compare(vm, st, o, x, best)
                if isinstance(r, CallLater):
                    return CallLater(PRELUDE["_" + name], (a,), k)
                if r:
                    best = x
            return best
        its = concrete_items(vm, st, a[0]) if len(a) == 1 and not (isinstance(a[0], Ref) and st.get(a[0]).kind == "iter") else None
        if its is not None and "key" not in k and its and all(isinstance(x, int) for x in its):
            return min(its) if name == "min" else max(its)
        return CallLater(PRELUDE["_" + name], (a if len(a) > 1 else a[0],), k)
    BUILTINS[name] = BuiltinV(name, impl)


minmax("min", "<")
minmax("max", ">")


@builtin("sum")
def _(vm, st, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    its = small_range(vm, st, a[0])
    if its is not None and all(isnum(x) for x in its) and isnum(start):
        r = start
        for x in its:
            r = binary(vm, st, "+", r, x)
        return r
    return CallLater(PRELUDE["_sum"], (a[0], start))


@builtin("sorted")
def _(vm, st, a, k):
    its = small_range(vm, st, a[0])
    if its is not None and not k and (all(isinstance(x, int) for x in its) or all(isinstance(x, str) for x in its)):
        return st.alloc(ListO(sorted(its)))
    return CallLater(PRELUDE["_sorted"], (a[0],), k)


@builtin("reversed")
def _(vm, st, a, k):
    v = a[0]
    if isinstance(v, RangeV):
        n = len_(vm, st, v)
        s = conc(v.step)
        last = add(v.start, scale(sub(lin(n), 1), s))
        return st.alloc(IterO("range", RangeV(unlin(last), unlin(sub(v.start, s)), -s), 0))
    its = concrete_items(vm, st, v)
    if its is not None:
        return st.alloc(IterO("seq", tuple(reversed(its)), 0))
    return CallLater(PRELUDE["_reversed"], (v,))


for _n in ("any", "all", "zip", "enumerate", "map", "filter"):
    def _mk2(n):
        def impl(vm, st, a, k):
            return CallLater(PRELUDE["_" + n], a, k)
        return impl
    BUILTINS[_n] = BuiltinV(_n, _mk2(_n))


# ------------------------------------------------------------------ methods of builtin types

METHODS = {}


def methods(kind, *names):
    def deco(fn):
        for n in names:
            METHODS[(kind, n)] = fn
        return fn
    return deco


def bind_method(kind, name, self_):
    fn = METHODS.get((kind, name))
    if fn is None:
        return NULL
    return BoundV(BuiltinV(kind + "." + name, fn), self_)


def method(vm, st, v, o, name):
    if o.kind == "cell" and name == "cell_contents":
        return o.v
    if o.kind == "gen" or o.kind == "iter":
        if name == "__next__":
            return BoundV(BUILTINS["next"], v)
        if name == "__iter__":
            return BoundV(BUILTINS["iter"], v)
        if name == "close":
            return BoundV(BuiltinV("close", gen_close), v)
    if name == "copy" and o.kind in ("list", "dict", "set"):
        return BoundV(BuiltinV("copy", lambda vm, st, a, k: st.alloc(st.get(a[0]).clone())), v)
    if name in DUNDERS:
        return BoundV(BuiltinV(name, DUNDERS[name]), v)
    return bind_method(o.kind, name, v)


def gen_close(vm, st, a, k):
    o = st.get(a[0])
    if o.kind == "gen":
        g = st.mut(a[0])
        g.done, g.frame = True, None
    return None


DUNDERS = {
    "__len__": lambda vm, st, a, k: len_(vm, st, a[0]),
    "__getitem__": lambda vm, st, a, k: getitem(vm, st, a[0], a[1]),
    "__contains__": lambda vm, st, a, k: contains(vm, st, a[0], a[1]),
    "__iter__": lambda vm, st, a, k: get_iter(vm, st, a[0]),
    "__eq__": lambda vm, st, a, k: compare(vm, st, "==", a[0], a[1]),
    "__setitem__": lambda vm, st, a, k: setitem(vm, st, a[0], a[1], a[2]),
    "__delitem__": lambda vm, st, a, k: delitem(vm, st, a[0], a[1]),
    "__hash__": lambda vm, st, a, k: BUILTINS["hash"].impl(vm, st, a, k),
    "__str__": lambda vm, st, a, k: format_(vm, st, a[0], "", None),
    "__repr__": lambda vm, st, a, k: repr_(vm, st, a[0]),
}


@methods("list", "append")
def _(vm, st, a, k):
    list_append(vm, st, a[0], a[1])
    return None


@methods("list", "extend")
def _(vm, st, a, k):
    return list_extend(vm, st, a[0], a[1])


@methods("list", "insert")
def _(vm, st, a, k):
    n = len(st.get(a[0]).items)
    i = conc(simp(st, clip(vm, st, a[1], n, 0)))
    if i is None:
        i = concretise(vm, st, a[1])
    m = st.mut(a[0], "insert")
    m.items.insert(i, a[2])
    m.table = None
    return None


@methods("list", "pop")
def _(vm, st, a, k):
    o = st.get(a[0])
    i = a[1] if len(a) > 1 else -1
    if not o.items:
        raise PyRaise(ExcV("IndexError", ("pop from empty list",)))
    i = norm_index(vm, st, i, len(o.items))
    if isinstance(i, Lin):
        i = concretise(vm, st, i)
    m = st.mut(a[0], "pop")
    m.table = None
    return m.items.pop(i)


@methods("list", "remove")
def _(vm, st, a, k):
    o = st.get(a[0])
    for i, v in enumerate(o.items):
        if compare(vm, st, "==", v, a[1]):
            m = st.mut(a[0], "remove")
            del m.items[i]
            m.table = None
            return None
    raise PyRaise(ExcV("ValueError", ("list.remove(x): x not in list",)))


@methods("list", "clear")
def _(vm, st, a, k):
    m = st.mut(a[0], "clear")
    m.items = []
    m.table = None
    return None


@methods("list", "reverse")
def _(vm, st, a, k):
    m = st.mut(a[0], "reverse")
    m.items.reverse()
    m.table = None
    return None


@methods("list", "sort")
def _(vm, st, a, k):
    o = st.get(a[0])
    its = list(o.items)
    if not k and all(isinstance(x, int) for x in its):
        m = st.mut(a[0], "sort")
        m.items.sort()
        m.table = None
        return None

    def fin(vm, st, l):
        m = st.mut(a[0], "sort")
        m.items = list(st.get(l).items)
        m.table = None
        return None
    return CallLater(PRELUDE["_sorted"], (a[0],), k, fin)


@methods("list", "index")
def _(vm, st, a, k):
    its = st.get(a[0]).items
    return seq_index(vm, st, its, a[1:])


@methods("tuple", "index")
def _(vm, st, a, k):
    return seq_index(vm, st, a[0], a[1:])


def seq_index(vm, st, its, a):
    lo = conc(a[1]) if len(a) > 1 else 0
    hi = conc(a[2]) if len(a) > 2 else len(its)
    for i in range(lo, min(hi, len(its))):
        if compare(vm, st, "==", its[i], a[0]):
            return i
    raise PyRaise(ExcV("ValueError", ("not in list",)))


@methods("list", "count")
def _(vm, st, a, k):
    return sum(1 for v in st.get(a[0]).items if compare(vm, st, "==", v, a[1]))


@methods("tuple", "count")
def _(vm, st, a, k):
    return sum(1 for v in a[0] if compare(vm, st, "==", v, a[1]))


# dict

@methods("dict", "get")
def _(vm, st, a, k):
    o = st.get(a[0])
    f = dict_find(vm, st, list(o.d), o.d, a[1])
    if f is NULL:
        return a[2] if len(a) > 2 else None
    return o.d[f]


@methods("dict", "setdefault")
def _(vm, st, a, k):
    o = st.get(a[0])
    f = dict_find(vm, st, list(o.d), o.d, a[1])
    if f is NULL:
        v = a[2] if len(a) > 2 else None
        st.mut(a[0], "setdefault").d[a[1]] = v
        return v
    return o.d[f]


@methods("dict", "pop")
def _(vm, st, a, k):
    o = st.get(a[0])
    f = dict_find(vm, st, list(o.d), o.d, a[1])
    if f is NULL:
        if len(a) > 2:
            return a[2]
        raise PyRaise(ExcV("KeyError", (a[1],)))
    return st.mut(a[0], "pop").d.pop(f)


@methods("dict", "keys")
def _(vm, st, a, k):
    return st.alloc(ListO(list(st.get(a[0]).d)))


@methods("dict", "values")
def _(vm, st, a, k):
    return st.alloc(ListO(list(st.get(a[0]).d.values())))


@methods("dict", "items")
def _(vm, st, a, k):
    return st.alloc(ListO([(x, y) for x, y in st.get(a[0]).d.items()]))


@methods("dict", "update")
def _(vm, st, a, k):
    d = {}
    if len(a) > 1:
        r = BUILTINS["dict"].impl(vm, st, (a[1],), {})
        if isinstance(r, CallLater):
            raise Unsupported("dict.update")
        d.update(st.get(r).d)
    d.update(k)
    dict_merge(vm, st, st.mut(a[0], "update").d, d)
    return None


@methods("dict", "clear")
def _(vm, st, a, k):
    st.mut(a[0], "clear").d = {}
    return None


# set

@methods("set", "add")
def _(vm, st, a, k):
    o = st.get(a[0])
    if dict_find(vm, st, list(o.s), o.s, a[1]) is NULL:
        st.mut(a[0], "add").s[simp(st, a[1])] = None
    return None


@methods("set", "discard", "remove")
def _(vm, st, a, k):
    o = st.get(a[0])
    f = dict_find(vm, st, list(o.s), o.s, a[1])
    if f is not NULL:
        del st.mut(a[0], "remove").s[f]
    return None


@methods("set", "update")
def _(vm, st, a, k):
    for y in a[1:]:
        r = BUILTINS["set"].impl(vm, st, (y,), {})
        if isinstance(r, CallLater):
            raise Unsupported("set.update")
        set_merge(vm, st, st.mut(a[0], "update").s, st.get(r).s)
    return None


def set_op(o):
    def impl(vm, st, a, k):
        x = st.alloc(SetO(dict(st.get(a[0]).s)))
        for y in a[1:]:
            r = BUILTINS["set"].impl(vm, st, (y,), {})
            if isinstance(r, CallLater):
                raise Unsupported("set operation")
            x = binary(vm, st, o, x, r)
        return x
    return impl


METHODS[("set", "union")] = set_op("|")
METHODS[("set", "intersection")] = set_op("&")
METHODS[("set", "difference")] = set_op("-")
METHODS[("set", "symmetric_difference")] = set_op("^")


@methods("set", "issubset")
def _(vm, st, a, k):
    r = BUILTINS["set"].impl(vm, st, (a[1],), {})
    if isinstance(r, CallLater):
        raise Unsupported("set operation")
    return all(set_has(vm, st, st.get(r).s, x) for x in st.get(a[0]).s)


@methods("set", "issuperset")
def _(vm, st, a, k):
    r = BUILTINS["set"].impl(vm, st, (a[1],), {})
    if isinstance(r, CallLater):
        raise Unsupported("set operation")
    return all(set_has(vm, st, st.get(a[0]).s, x) for x in st.get(r).s)


# str

def sym_str(name, *args):
    return SStr((("sym", name) + args,))


def str_method(name):
    """Methods that are folded on literals and opaque (deterministic) otherwise."""
    def impl(vm, st, a, k):
        s = a[0]
        args = []
        for x in a[1:]:
            if isinstance(x, Lin):
                x = simp(st, x)
            if isinstance(x, Ref):
                x = tuple(concrete_items(vm, st, x) or ())
            args.append(x)
        if isinstance(s, (str, bytes)) and all(not isinstance(x, (SStr, Lin, Unk, FrozenV)) for x in args):
            try:
                r = getattr(s, name)(*args, **k)
            except ValueError:
                raise PyRaise(ExcV("ValueError", (name,)))
            if isinstance(r, list):
                return st.alloc(ListO(r))
            return r
        if "_text_" + name in PRELUDE and chars_of(s) is not None and all(isinstance(x, int) or x is None or isstr(x) and chars_of(x) is not None for x in args):
            return CallLater(PRELUDE["_text_" + name], (s,) + tuple(args), k)
        return opaque_str_method(vm, st, name, s, tuple(args))
    return impl


def opaque_str_method(vm, st, name, s, args):
    if (name == "zfill" and len(args) == 1 or name == "rjust" and len(args) == 2 and args[1] == "0") and isinstance(s, SStr) and len(s.pieces) == 1 \
            and isinstance(args[0], int) and s.pieces[0][0] == "fmt" and s.pieces[0][2] in ("", "d", "x", "X", "o", "b") \
            and num_cmp(st, ">=", s.pieces[0][1], 0):
        return mkstr([("fmt", s.pieces[0][1], "0%d%s" % (args[0], s.pieces[0][2]) if args[0] > 1 else s.pieces[0][2])])
    if name in ("upper", "lower") and isinstance(s, SStr):
        out = []
        ok = True
        for p in s.pieces:
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif p[0] == "fmt" and (p[2].endswith("X") or p[2].endswith("x")):
                t = p[2][:-1] + ("X" if name == "upper" else "x")
                out.append(("fmt", p[1], t))
            elif p[0] == "fmt" and (not p[2] or p[2][-1] in "0123456789d"):
                out.append(p)
            else:
                ok = False
        if ok:
            return mkstr(out)
    if name in ("startswith", "endswith") and isinstance(s, SStr) and isinstance(args[0], (str, tuple)) and len(args) == 1:
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        p = s.pieces[0] if name == "startswith" else s.pieces[-1]
        if isinstance(p, str) and all(isinstance(x, str) for x in opts):
            und = False
            for x in opts:
                if len(x) <= len(p):
                    if getattr(p, name)(x):
                        return True
                else:
                    und = und or (x.startswith(p) if name == "startswith" else x.endswith(p))
            if not und:
                return False
        ch = chars_of(s)
        if ch is not None and len(opts) == 1:
            x = [ord(c) for c in opts[0]]
            if len(x) > len(ch):
                return False
            part = ch[:len(x)] if name == "startswith" else ch[len(ch) - len(x):]
            return all(num_cmp(st, "==", p, q) for p, q in zip(part, x))
    key = (name, s) + args
    if name in ("startswith", "endswith", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace", "isnumeric", "isdecimal", "isidentifier"):
        return opaque_bool(vm, st, key)
    if name in ("find", "rfind", "index", "rindex"):
        return lin(mk_atom("op", key, -1, None))
    if name == "count" and args == ("1",) and isinstance(s, SStr) and len(s.pieces) == 1 and s.pieces[0][0] == "fmt" and s.pieces[0][2] in ("b", "#b"):
        return METHODS[("int", "bit_count")](vm, st, [s.pieces[0][1]], {})
    if name == "count":
        return lin(mk_atom("op", key, 0, None))
    if name in ("split", "rsplit", "splitlines"):
        if isinstance(s, SStr) and len(args) >= 1 and isinstance(args[0], str) and args[0] and len(args) == 1:
            parts = split_pieces(s, args[0])
            if parts is not None:
                return st.alloc(ListO(parts))
        return vm.opaque_list(st, ("strcall",) + key) if hasattr(vm, "opaque_list") else FrozenV("strcall", key)
    if name in ("partition", "rpartition"):
        if isinstance(s, SStr) and isinstance(args[0], str):
            parts = split_pieces(s, args[0], 1)
            if parts is not None and name == "partition":
                if len(parts) == 1:
                    return (parts[0], "", "")
                return (parts[0], args[0], parts[1])
        found = opaque_bool(vm, st, ("in", s, args[0]))
        if not found:
            return (s, "", "") if name == "partition" else ("", "", s)
        return (sym_str(name + "0", s, args[0]), args[0], sym_str(name + "2", s, args[0]))
    if name == "encode":
        return FrozenV("encode", (s,) + args)
    return sym_str(*key)


def split_pieces(s, sep, maxsplit=None):
    """Split when the symbolic pieces certainly do not contain the separator."""
    for p in s.pieces:
        if isinstance(p, str):
            continue
        if p[0] == "fmt" and not any(c in "0123456789abcdefABCDEFx-" for c in sep):
            continue
        return None
    parts = [[]]
    for p in s.pieces:
        if isinstance(p, str):
            bits_ = p.split(sep) if maxsplit is None else p.split(sep, max(0, maxsplit - (len(parts) - 1)))
            parts[-1].append(bits_[0])
            for b in bits_[1:]:
                parts.append([b])
        else:
            parts[-1].append(p)
    return [mkstr(x) for x in parts]


for _n in ("upper", "lower", "title", "capitalize", "casefold", "swapcase", "strip", "lstrip", "rstrip", "split", "rsplit",
           "splitlines", "partition", "rpartition", "startswith", "endswith", "find", "rfind", "index", "rindex", "count",
           "replace", "zfill", "ljust", "rjust", "center", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace",
           "isnumeric", "isdecimal", "isidentifier", "encode", "removeprefix", "removesuffix", "translate", "expandtabs"):
    METHODS[("str", _n)] = str_method(_n)


def _unfollowed(vm, st, a, k):
    raise Unsupported("text of %s" % (a[1],))


BUILTINS["_unfollowed"] = BuiltinV("_unfollowed", _unfollowed)


def bytes_method(name):
    folded = str_method(name)

    def impl(vm, st, a, k):
        if isinstance(a[0], bytes) and all(isinstance(x, (int, str, bytes, bool)) or x is None for x in list(a[1:]) + list(k.values())):
            return folded(vm, st, a, k)
        if "_bytes_" + name in PRELUDE:
            return CallLater(PRELUDE["_bytes_" + name], a, k)
        raise Unsupported("bytes.%s" % name)
    return impl


for _n in ("decode", "find", "index", "rindex", "startswith", "endswith", "split", "strip", "hex", "count", "rfind", "replace", "partition",
           "rpartition", "rstrip", "lstrip", "isascii"):
    METHODS[("bytes", _n)] = bytes_method(_n)


@methods("str", "zfill")
def _(vm, st, a, k):
    s, n = a[0], a[1]
    if isinstance(s, str) and isinstance(n, int):
        return s.zfill(n)
    if isinstance(s, SStr) and len(s.pieces) == 1 and s.pieces[0][0] == "fmt" and s.pieces[0][2] in ("x", "X", "d", "", "b") and isinstance(n, int):
        return mkstr((("fmt", s.pieces[0][1], "0%d%s" % (n, s.pieces[0][2] or "d")),))
    return sym_str("zfill", s, n)


@methods("str", "join")
def _(vm, st, a, k):
    its = concrete_items(vm, st, a[1])
    if its is None:
        if isinstance(a[1], (Unk,)):
            raise Unsupported("join of unknown at %s" % st.where())
        return CallLater(PRELUDE["_tolist"], (a[1],), {}, lambda vm, st, l: METHODS[("str", "join")](vm, st, (a[0], l), k))
    out = []
    for i, x in enumerate(its):
        if not isstr(x):
            if isinstance(x, Unk):
                raise Unsupported("join of unknown at %s" % st.where())
            if isinstance(x, FrozenV):
                x = sym_str("str", x)
            else:
                raise terr("sequence item: expected str instance")
        if i:
            out.append(a[0])
        out.append(x)
    return mkstr(out)


@methods("str", "format")
def _(vm, st, a, k):
    s = a[0]
    if not isinstance(s, str):
        raise Unsupported("format of a computed template")
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[1 + auto]
            auto += 1
        else:
            import re
            m = re.match(r"^(\w+)", field)
            n = m.group(1)
            v = a[1 + int(n)] if n.isdigit() else k[n]
            rest = field[len(n):]
            while rest:
                m = re.match(r"^\[(\w+)\]|^\.(\w+)", rest)
                if m.group(1) is not None:
                    q = m.group(1)
                    v = getitem(vm, st, v, int(q) if q.isdigit() else q)
                else:
                    v = vm.getattr(st, v, m.group(2))
                rest = rest[m.end():]
        r = format_(vm, st, v, spec or "", {"r": "repr", "s": "str", None: None}[conv])
        if isinstance(r, CallLater):
            raise Unsupported("format with __str__")
        out.append(r)
    return mkstr(out)


@methods("int", "bit_length")
def _(vm, st, a, k):
    x = a[0]
    if not isinstance(x, Lin):
        return int(x).bit_length()
    if st.decide(x, "<"):
        x = scale(x, -1)
    # binary search over the powers of two
    lo, hi = st.facts.interval(x)
    if hi is None:
        raise Unsupported("bit_length of an unbounded value")
    a_, b_ = 0, hi.bit_length()
    while a_ < b_:
        m = (a_ + b_) // 2
        if num_cmp(st, "<", x, 1 << m):
            b_ = m
        else:
            a_ = m + 1
    return a_


@methods("int", "bit_count")
def _(vm, st, a, k):
    x = a[0]
    if not isinstance(x, Lin):
        return int(x).bit_count()
    lo, hi = st.facts.interval(x)
    if lo is None or lo < 0 or hi is None:
        raise Unsupported("bit_count")
    r = lin(0)
    for i in range(hi.bit_length()):
        r = add(r, bits(x, i, i + 1, rng(st)))
    return r


@methods("int", "to_bytes")
def _(vm, st, a, k):
    raise Unsupported("to_bytes")


@methods("int", "__index__", "__int__", "conjugate")
def _(vm, st, a, k):
    return a[0]


@methods("float", "is_integer")
def _(vm, st, a, k):
    x = a[0]
    if isinstance(x, float):
        return x.is_integer()
    raise Unsupported("is_integer")


def value_attr(vm, st, v, name):
    if isinstance(v, RangeV):
        if name in ("start", "stop", "step"):
            return getattr(v, name)
        if name == "index":
            return BoundV(BuiltinV("range.index", range_index), v)
        if name == "count":
            return BoundV(BuiltinV("range.count", lambda vm, st, a, k: 1 if contains(vm, st, a[0], a[1]) else 0), v)
    if isinstance(v, SliceV):
        if name in ("start", "stop", "step"):
            return getattr(v, name)
        if name == "indices":
            return BoundV(BuiltinV("slice.indices", slice_indices), v)
    kd = kind_of(st, v)
    if kd == "bool":
        kd = "int"
    if isnum(v):
        if name == "real" or name == "numerator":
            return v
        if name == "imag":
            return 0
    if name in DUNDERS:
        return BoundV(BuiltinV(name, DUNDERS[name]), v)
    if isinstance(v, PropertyV):
        if name == "setter":
            return BuiltinV("setter", lambda vm, st, a, k: PropertyV(v.fget, a[0]))
        if name == "getter":
            return BuiltinV("getter", lambda vm, st, a, k: PropertyV(a[0], v.fset))
        if name == "deleter":
            return BuiltinV("deleter", lambda vm, st, a, k: v)
    if isinstance(v, TypeV):
        if name == "__name__":
            return v.name
        if v.name == "dict" and name == "fromkeys":
            return BuiltinV("dict.fromkeys", lambda vm, st, a, k: st.alloc(DictO({x: (a[1] if len(a) > 1 else None) for x in concrete_items(vm, st, a[0])})))
        if v.name == "int" and name == "from_bytes":
            return BuiltinV("int.from_bytes", int_from_bytes)
        if v.name == "str" and name == "maketrans":
            return Unk("maketrans")
        if v.name == "object" and name == "__init__":
            return BuiltinV("object.__init__", lambda vm, st, a, k: None)
        if v.name == "object" and name == "__new__":
            return BuiltinV("object.__new__", lambda vm, st, a, k: st.alloc(InstO(a[0])))
        fn = METHODS.get((v.name, name))
        if fn is not None:
            return BuiltinV(v.name + "." + name, fn)
        if name in DUNDERS:
            return BuiltinV(name, DUNDERS[name])
        return NULL
    if isinstance(v, ExcV):
        if name == "args":
            return v.args
        if name == "with_traceback":
            return BuiltinV("with_traceback", lambda vm, st, a, k: v)
        return NULL
    if isinstance(v, BoundV):
        if name == "__self__":
            return v.self
        if name == "__func__":
            return v.func
        return vm._getattr(st, v.func, name) if isinstance(v.func, FuncV) else NULL
    if isinstance(v, BuiltinV):
        if name == "__name__":
            return v.name
        h = BUILTIN_ATTRS.get((v.name, name))
        return h if h is not None else NULL
    if isinstance(v, FrozenV):
        h = FROZEN_ATTRS.get((v.tag, name))
        if h is not None:
            return h(vm, st, v)
    if isinstance(v, PartialV):
        if name == "func":
            return v.func
        if name == "args":
            return v.args
    return bind_method(kd, name, v)


BUILTIN_ATTRS = {}
FROZEN_ATTRS = {}


def range_index(vm, st, a, k):
    if not contains(vm, st, a[0], a[1]):
        raise PyRaise(ExcV("ValueError", ("not in range",)))
    return num_floordiv(vm, st, sub(a[1], a[0].start), a[0].step)


def slice_indices(vm, st, a, k):
    s = a[0]
    vals = [s.start, s.stop, s.step]
    if any(isinstance(x, Lin) for x in vals) or isinstance(a[1], Lin):
        if s.step in (None, 1):
            return (clip(vm, st, s.start, a[1], 0), clip(vm, st, s.stop, a[1], a[1]), 1)
        raise Unsupported("slice.indices")
    return slice(*vals).indices(a[1])


def object_attr(vm, st, v, name):
    if name == "__init__":
        return BuiltinV("object.__init__", lambda vm, st, a, k: None)
    if name == "__doc__":
        return None
    if name in ("__eq__",):
        return BoundV(BuiltinV("object.__eq__", lambda vm, st, a, k: is_(vm, st, a[0], a[1])), v)
    o = st.get(v)
    if o.kind == "class":
        h = o.attrs.get("__members_map__")
        if name == "__members__" and h is not None:
            return st.alloc(DictO(dict(h)))
    if o.kind == "inst":
        fields = vm.lookup_type_attr(st, o.cls, "__nt_fields__")
        if fields is not None:
            if name == "_replace":
                return BoundV(BuiltinV("_replace", lambda vm, st, a, k: st.alloc(InstO(o.cls, dict(st.get(a[0]).attrs, **k)))), v)
            if name == "_asdict":
                return BoundV(BuiltinV("_asdict", lambda vm, st, a, k: st.alloc(DictO(dict(st.get(a[0]).attrs)))), v)
    return NULL


def class_created(vm, st, c):
    o = st.get(c)
    for b in o.bases:
        if isinstance(b, BuiltinV) and b.name in ("NamedTuple", "namedtuple"):
            ann = o.attrs.get("__ann__")
            fields = tuple(st.get(ann).d) if isinstance(ann, Ref) else ()
            o.attrs["__nt_fields__"] = fields
        if isinstance(b, TypeV) and b.name in ("Enum", "IntEnum", "IntFlag", "Flag"):
            members = []
            mm = {}
            for k, v in list(o.attrs.items()):
                if k.startswith("_") or isinstance(v, (FuncV, PropertyV, ClassMethodV, StaticMethodV)):
                    continue
                if b.name in ("IntEnum", "IntFlag"):
                    members.append(v)
                    mm[k] = v
                else:
                    r = st.alloc(InstO(c, {"name": k, "value": v, "_value_": v}))
                    o.attrs[k] = r
                    members.append(r)
                    mm[k] = r
            o.attrs["__enum_members__"] = tuple(members)
            o.attrs["__members_map__"] = mm


# ------------------------------------------------------------------ symbolic bytes

def bytes_len(v):
    return sub(v.data[2], v.data[1])


def bytes_item(vm, st, o, k):
    name, lo, hi = o.data
    n = unlin(sub(hi, lo))
    if isinstance(k, SliceV):
        if k.step not in (None, 1):
            raise Unsupported("stepped bytes slice")
        a = clip(vm, st, k.start, n, 0)
        b = clip(vm, st, k.stop, n, n)
        return FrozenV("bytes", (name, unlin(add(lo, a)), unlin(add(lo, b))))
    k = norm_index(vm, st, k, n)
    return unlin(read(name, place(st, name, add(lin(lo), lin(k)))))


def place(st, table, i):
    """An index in the form that the facts allow."""
    if getattr(table, "placed", False) and any(a.kind == "div" for a, _ in i.terms):
        return st.facts.simplify(i)
    return i


def int_from_bytes(vm, st, a, k):
    v = a[0]
    if isinstance(v, bytes):
        return int.from_bytes(v, a[1] if len(a) > 1 else k.get("byteorder", "big"), signed=bool(k.get("signed")))
    if isinstance(v, FrozenV) and v.tag == "bytes":
        name, lo, hi = v.data
        n = conc(unlin(sub(hi, lo)))
        if n is None:
            raise Unsupported("int.from_bytes")
        order = a[1] if len(a) > 1 else k.get("byteorder", "big")
        return scalar(name, lo, n, order == "little", bool(k.get("signed")))
    raise Unsupported("int.from_bytes")


def scalar(table, off, size, little, signed):
    """The number stored in `size` bytes, as a combination of the bytes."""
    v = lin(0)
    for i in range(size):
        v = add(v, scale(read(table, add(lin(off), i if little else size - 1 - i)), 256 ** i))
    if signed:
        v = sub(v, scale(div(v, 1 << (8 * size - 1)), 1 << 8 * size))
    return v


STRUCT_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1, "c": 1, "?": 1}
NATIVE_SIZES = dict(STRUCT_SIZES, l=8, L=8)


def struct_layout(toks, native):
    """[(code, count, size, offset Lin)], total; native formats align each field."""
    sizes = NATIVE_SIZES if native else STRUCT_SIZES
    pos, out = lin(0), []
    for ch, c in toks:
        size = 1 if ch == "s" else sizes.get(ch)
        if size is None:
            raise Unsupported("struct code %s" % ch)
        if native and size > 1:
            m = mod(pos, size)
            if m.terms:
                raise Unsupported("alignment after a run of unknown length")
            if m.const:
                pos = add(pos, size - m.const)
        out.append((ch, c, size, pos))
        pos = add(pos, scale(lin(c), size))
    return out, pos


def parse_struct(fmt):
    """[(code, count Lin or int)] , little flag"""
    little = True
    native = True
    toks = []
    if not isstr(fmt):
        raise Unsupported("struct format %r" % (fmt,))
    pieces = [fmt] if isinstance(fmt, str) else list(fmt.pieces)
    cnt = None
    first = True
    for p in pieces:
        if isinstance(p, tuple):
            if p[0] == "fmt" and p[2] in ("", "d"):
                cnt = p[1]
                continue
            raise Unsupported("struct format %r" % (fmt,))
        for ch in p:
            if first and ch in "<>=!@":
                native = ch == "@"
                little = ch in "<=@"
                first = False
                continue
            first = False
            if ch.isdigit():
                cnt = (cnt or 0) * 10 + int(ch) if not isinstance(cnt, Lin) else None
            elif ch.isspace():
                continue
            else:
                toks.append((ch, 1 if cnt is None else cnt))
                cnt = None
    return toks, little, native


def struct_calcsize(vm, st, fmt):
    toks, little, native = parse_struct(fmt)
    return unlin(struct_layout(toks, native)[1])



class U(object):
    pass
