"""Normal forms for abstract integers (and exact reals).

A value is a *linear normal form* over hash-consed atoms.  The only non-linear
operators that survive are floor divisions by a positive constant (`div`),
reads from a table (`read`) and opaque hash-consed applications (`op`).
Shifts, masks, remainders and concatenations of bit fields are rewritten into
linear combinations of `div` atoms, so that two ways of writing the same bit
manipulation get the same normal form.
"""
from fractions import Fraction
from math import gcd

_atoms = {}
_uid = [0]


class Atom(object):
    __slots__ = ("kind", "args", "uid", "lo", "hi", "deps", "_lin", "depth")

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, args, lo=None, hi=None):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.lo, a.hi = kind, args, lo, hi
        _uid[0] += 1
        a.uid = _uid[0]
        d = set()
        if kind == "var":
            d.add(a)
        depth = 1
        for x in args:
            if isinstance(x, Lin):
                for (b, _) in x.terms:
                    d |= b.deps
                    depth = max(depth, b.depth + 1)
        if not d:
            d.add(a)
        a.deps = frozenset(d)
        a.depth = depth
        a._lin = None
        _atoms[key] = a
    return a


class Lin(object):
    """const + sum(coef * atom); `f` marks a float-typed (real) value."""
    __slots__ = ("terms", "const", "f", "_h")

    def __init__(self, terms, const, f=False):
        self.terms = terms
        self.const = const
        self.f = f
        self._h = hash((terms, const))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.const == o.const and self.terms == o.terms

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise TypeError("truth value of an abstract number")

    def __repr__(self):
        return show(self)

    @property
    def is_const(self):
        return not self.terms


def _norm(n):
    if isinstance(n, Fraction) and n.denominator == 1:
        return n.numerator
    return n


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin((), int(x))
    if isinstance(x, int):
        return Lin((), x)
    if isinstance(x, Fraction):
        return Lin((), _norm(x), True)
    if isinstance(x, float):
        return Lin((), _norm(Fraction(x)), True)
    if isinstance(x, Atom):
        if x._lin is None:
            x._lin = Lin(((x, 1),), 0)
        return x._lin
    raise TypeError(x)


def build(d, const, f=False):
    terms = tuple(sorted(((a, _norm(k)) for a, k in d.items() if k != 0), key=lambda t: t[0].uid))
    return Lin(terms, _norm(const), f)


def unlin(x):
    """Collapse a constant normal form to a Python number."""
    if isinstance(x, Lin) and not x.terms:
        c = x.const
        if x.f:
            return float(c)
        if isinstance(c, Fraction):
            return float(c)
        return c
    return x


def var(name, lo=None, hi=None):
    a = mk_atom("var", (name,), lo, hi)
    if lo is not None and (a.lo is None or a.lo != lo):
        a.lo = lo
    if hi is not None and (a.hi is None or a.hi != hi):
        a.hi = hi
    return lin(a)


def add(x, y):
    x, y = lin(x), lin(y)
    f = x.f or y.f
    if not y.terms:
        if y.const == 0 and f == x.f:
            return x
        return Lin(x.terms, _norm(x.const + y.const), f)
    if not x.terms:
        return Lin(y.terms, _norm(x.const + y.const), f)
    d = dict(x.terms)
    for a, k in y.terms:
        d[a] = d.get(a, 0) + k
    return build(d, x.const + y.const, f)


def scale(x, k):
    x = lin(x)
    if k == 1:
        return x
    if k == 0:
        return Lin((), 0, x.f)
    return Lin(tuple((a, _norm(c * k)) for a, c in x.terms), _norm(x.const * k), x.f)


def sub(x, y):
    return add(x, scale(y, -1))


def shape_of(x):
    """x == g*shape + const with shape primitive and leading coefficient > 0.
    Returns (shape, g) with g possibly negative (int, or Fraction)."""
    g = 0
    den = 1
    for _, k in x.terms:
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    for _, k in x.terms:
        g = gcd(g, int(k * den))
    if x.terms[0][1] < 0:
        g = -g
    if den != 1:
        g = Fraction(g, den)
    s = Lin(tuple((a, _norm(k / g) if isinstance(g, Fraction) or isinstance(k, Fraction) else k // g)
                  for a, k in x.terms), 0)
    return s, _norm(g)


def has_frac(x):
    return isinstance(x.const, Fraction) or any(isinstance(k, Fraction) for _, k in x.terms)


def div(x, d, rng=None):
    """floor(x / d), d a positive int.  rng(lin) -> (lo, hi) or None supplies bounds."""
    x = lin(x)
    assert d > 0
    if d == 1:
        return x
    if not x.terms:
        return lin(x.const // d)
    out = {}
    rest = {}
    for a, k in x.terms:
        q, r = divmod(k, d)
        if 2 * r > d:
            q += 1
            r -= d
        if q:
            out[a] = q
        if r:
            rest[a] = r
    cq, cr = divmod(x.const, d)
    outl = build(out, cq)
    if not rest:
        return outl
    g = d
    for r in rest.values():
        g = gcd(g, r)
    if g > 1:
        rest = {a: r // g for a, r in rest.items()}
        cr //= g
        d //= g
        if d == 1:
            return add(outl, build(rest, cr))
    R = build(rest, cr)
    if rng is not None:
        b = rng(R)
        if b is not None and b[0] is not None and b[1] is not None and b[0] // d == b[1] // d:
            return add(outl, b[0] // d)
    if len(R.terms) == 1:
        a, k = R.terms[0]
        b = static_bounds(a)
        if b is not None:
            lo, hi = sorted((b[0] * k + R.const, b[1] * k + R.const))
            if lo // d == hi // d:
                return add(outl, lo // d)
        if k == 1 and a.kind == "div":
            X, e = a.args
            return add(outl, div(add(X, R.const * e), e * d, rng))
    else:
        H = drop_low(R, d)
        if H is not None:
            return add(outl, div(H[0], d // H[1], rng))
    return add(outl, lin(mk_atom("div", (R, d))))


def static_bounds(a):
    if a.lo is not None and a.hi is not None:
        return a.lo, a.hi
    if a.kind == "div" and len(a.args[0].terms) == 1:
        b = static_bounds(a.args[0].terms[0][0])
        if b is not None:
            k, c, d = a.args[0].terms[0][1], a.args[0].const, a.args[1]
            lo, hi = sorted((b[0] * k + c, b[1] * k + c))
            return lo // d, hi // d
    return None


def drop_low(R, d):
    """R = m*H + L with 0 <= L < m and m | d: floor(R / d) = floor(H / (d / m)).  (H, m) or None."""
    for m in sorted({gcd(k, d) for _, k in R.terms} - {1, d}):
        lo = hi = R.const % m
        if hi >= m:
            continue
        ok = True
        for a, k in R.terms:
            if k % m:
                b = static_bounds(a)
                if b is None:
                    ok = False
                    break
                lo += min(k * b[0], k * b[1])
                hi += max(k * b[0], k * b[1])
        if ok and 0 <= lo and hi < m:
            return build({a: k // m for a, k in R.terms if k % m == 0}, R.const // m), m
    return None


def mod(x, d, rng=None):
    return sub(x, scale(div(x, d, rng), d))


def bits(x, lo, hi, rng=None):
    """The bit field [lo, hi) of x, shifted down."""
    t = div(x, 1 << lo, rng)
    if hi is None:
        return t
    return sub(t, scale(div(x, 1 << hi, rng), 1 << (hi - lo)))


def and_const(x, m, rng=None):
    if m < 0:
        return sub(x, and_const(x, ~m, rng))
    res = lin(0)
    k = 0
    while m >> k:
        if not (m >> k) & 1:
            k += 1
            continue
        h = k
        while (m >> h) & 1:
            h += 1
        res = add(res, scale(bits(x, k, h, rng), 1 << k))
        k = h
    return res


def op(name, *args):
    return lin(mk_atom("op", (name,) + args))


# ---------------------------------------------------------------- tables

class Table(object):
    """An immutable literal table found in the analysed source."""
    __slots__ = ("name", "data", "uid", "_sub", "_aff")
    _by = {}

    def __init__(self, name, data):
        self.name, self.data = name, data
        self._sub = {}
        self._aff = None

    def __repr__(self):
        return self.name

    def rng(self, lo, hi):
        lo = max(lo, 0)
        hi = min(hi, len(self.data) - 1)
        if lo > hi:
            return None
        key = (lo, hi)
        r = self._sub.get(key)
        if r is None:
            s = self.data[lo:hi + 1]
            r = self._sub[key] = (min(s), max(s))
        return r


class SymTable(object):
    """A table with unknown contents; every entry lies in [lo, hi]."""
    __slots__ = ("name", "lo", "hi", "known", "placed")

    def __init__(self, name, lo, hi, known=None):
        self.name, self.lo, self.hi = name, lo, hi
        self.known = {} if known is None else known         # entries whose value is fixed
        self.placed = False     # read indexes are put in the form that the path's facts allow

    def __repr__(self):
        return self.name


def read(table, idx):
    idx = lin(idx)
    if isinstance(table, Table) and not idx.terms:
        return lin(table.data[idx.const])
    if isinstance(table, SymTable) and not idx.terms and idx.const in table.known:
        return lin(table.known[idx.const])
    a = mk_atom("read", (table, idx))
    if isinstance(table, SymTable):
        a.lo, a.hi = table.lo, table.hi
    return lin(a)


# ---------------------------------------------------------------- printing

def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "div":
        x, d = a.args
        if d & (d - 1) == 0:
            return "(%s>>%d)" % (show(x), d.bit_length() - 1)
        return "(%s//%d)" % (show(x), d)
    if k == "read":
        return "%s[%s]" % (a.args[0], show(a.args[1]))
    return "%s(%s)" % (a.args[0], ", ".join(show(v) if isinstance(v, Lin) else repr(v) for v in a.args[1:]))


def show(x):
    if not isinstance(x, Lin):
        return repr(x)
    out = []
    for a, k in x.terms:
        s = show_atom(a)
        if k == 1:
            out.append("+" + s)
        elif k == -1:
            out.append("-" + s)
        else:
            out.append("%s%s*%s" % ("+" if k > 0 else "", k, s))
    if x.const or not out:
        out.append("%s%s" % ("+" if x.const >= 0 and out else "", x.const))
    s = "".join(out)
    return s[1:] if s.startswith("+") else s


# ---------------------------------------------------------------- evaluation

class NoValue(Exception):
    pass


def ev(x, env):
    """Evaluate a normal form under env: atom -> number (used for witnesses and
    finite value sets; the analysed program is never run)."""
    if not isinstance(x, Lin):
        return x
    s = x.const
    for a, k in x.terms:
        s += k * ev_atom(a, env)
    return s


def ev_atom(a, env):
    v = env.get(a)
    if v is not None:
        return v
    if a.kind == "div":
        v = ev(a.args[0], env) // a.args[1]
    elif a.kind == "read":
        i = ev(a.args[1], env)
        t = a.args[0]
        if isinstance(t, SymTable):
            h = env.get("sym")
            if h is None:
                raise NoValue(a)
            v = h(t, i)
        else:
            if i < 0 or i >= len(t.data):
                raise NoValue(a)
            v = t.data[i]
    elif a.kind == "op":
        args = [ev(y, env) if isinstance(y, Lin) else y for y in a.args[1:]]
        v = ev_op(a.args[0], args)
    else:
        raise NoValue(a)
    env[a] = v
    return v


def ev_op(name, args):
    try:
        return _ev_op(name, args)
    except (ValueError, OverflowError, TypeError):
        raise NoValue(name)


def _ev_op(name, args):
    if name == "mul":
        return args[0] * args[1]
    if name == "or":
        return args[0] | args[1]
    if name == "and":
        return args[0] & args[1]
    if name == "xor":
        return args[0] ^ args[1]
    if name == "pow2":
        if args[0] > 4096:
            raise NoValue(name)
        return 1 << args[0]
    if name == "fdiv":
        if args[1] == 0:
            raise NoValue(name)
        return Fraction(args[0]) / Fraction(args[1])
    if name == "floordiv":
        if args[1] == 0:
            raise NoValue(name)
        return args[0] // args[1]
    if name == "mod":
        if args[1] == 0:
            raise NoValue(name)
        return args[0] % args[1]
    if name == "shr":
        return args[0] >> args[1]
    if name == "shl":
        return args[0] << args[1]
    if name == "pow":
        return args[0] ** args[1]
    raise NoValue(name)


# Compile a normal form to a closure over one root atom (for value sets).

def to_py(x, names):
    """Python source text of a normal form; names: atom/table -> identifier."""
    parts = [repr(x.const) if not isinstance(x.const, Fraction) else "F(%d,%d)" % (x.const.numerator, x.const.denominator)]
    for a, k in x.terms:
        ks = repr(k) if not isinstance(k, Fraction) else "F(%d,%d)" % (k.numerator, k.denominator)
        parts.append("%s*%s" % (ks, atom_py(a, names)))
    return "(" + "+".join(parts) + ")"


def atom_py(a, names):
    n = names.get(a)
    if n is not None:
        return n
    if a.kind == "div":
        return "(%s//%d)" % (to_py(a.args[0], names), a.args[1])
    if a.kind == "read":
        t = a.args[0]
        if isinstance(t, SymTable):
            raise NoValue(a)
        tn = names.get(t)
        if tn is None:
            tn = names[t] = "t%d" % len(names)
        return "%s(%s)" % (tn, to_py(a.args[1], names))
    if a.kind == "op":
        nm = a.args[0]
        args = [to_py(y, names) if isinstance(y, Lin) else repr(y) for y in a.args[1:]]
        return "OP(%r,[%s])" % (nm, ",".join(args))
    raise NoValue(a)


def _mkread(t):
    data = t.data

    def r(i):
        if i < 0 or i >= len(data):
            raise NoValue(t)
        return data[i]
    return r


def compile_fn(xs, root_atoms):
    """Return f(*roots) -> tuple of values of the normal forms xs."""
    names = {}
    params = []
    for i, a in enumerate(root_atoms):
        names[a] = "r%d" % i
        params.append("r%d" % i)
    body = ",".join(to_py(lin(x), names) for x in xs)
    env = {"F": Fraction, "OP": ev_op}
    for k, n in names.items():
        if isinstance(k, Table):
            env[n] = _mkread(k)
    return eval("lambda %s: (%s,)" % (",".join(params), body), env)
