"""The numeric abstract domain: intervals on linear shapes, excluded values,
finite value sets (powerset domain) on roots, and a polyhedral fallback
(Fourier-Motzkin) that also knows the definition of every `div` atom."""
from fractions import Fraction
from math import gcd
from .expr import *
from . import expr as E

INF = None
FINITE_VARS = {}       # atom -> domain list (declared by a harness)
_dom_cache = {}
_root_cache = {}
_val_cache = {}
_mask_cache = {}
_region_cache = {}


def declare_finite(v, values):
    a = v.terms[0][0]
    FINITE_VARS[a] = list(values)
    _dom_cache.pop(a, None)
    _root_cache.clear()


def domain(root):
    d = _dom_cache.get(root)
    if d is None:
        if root in FINITE_VARS:
            d = FINITE_VARS[root]
        else:
            d = sorted(set(root.args[0].data))
        _dom_cache[root] = d
    return d


def is_finite_root(a):
    return a in FINITE_VARS or (a.kind == "read" and isinstance(a.args[0], Table) and len(a.args[0].data) <= 70000
                                and all(isinstance(x, int) for x in a.args[0].data[:1]))


def roots(x):
    """The set of root atoms a normal form (or atom) is a function of."""
    if isinstance(x, Lin):
        if len(x.terms) == 1:
            return roots(x.terms[0][0])
        r = frozenset()
        for a, _ in x.terms:
            r |= roots(a)
        return r
    r = _root_cache.get(x)
    if r is not None:
        return r
    if x.kind == "var":
        r = frozenset((x,))
    elif x.kind == "div":
        r = roots(x.args[0])
    elif x.kind == "read":
        if isinstance(x.args[0], Table):
            r = roots(x.args[1])
            if not (len(r) == 1 and is_finite_root(next(iter(r)))):
                r = frozenset((x,))
        else:
            r = frozenset((x,))
    else:
        r = frozenset()
        for y in x.args:
            if isinstance(y, Lin):
                r |= roots(y)
        if x.args[0] in ("opaque",) or not r:
            r = frozenset((x,))
    _root_cache[x] = r
    return r


def finite_root(x):
    r = roots(x)
    if len(r) == 1:
        a = next(iter(r))
        if is_finite_root(a):
            return a
    return None


def values_on(root, x):
    key = (root, x)
    v = _val_cache.get(key)
    if v is None:
        f = compile_fn([x], [root])
        v = []
        for r in domain(root):
            try:
                v.append(f(r)[0])
            except NoValue:
                v.append(None)
        if len(_val_cache) > 4000:
            _val_cache.clear()
        _val_cache[key] = v
    return v


def mask_on(root, x, rel):
    """Bit mask over the root's domain of the values where `x rel 0` may hold."""
    key = (root, x, rel)
    m = _mask_cache.get(key)
    if m is None:
        vs = values_on(root, x)
        if rel == "<":
            bs = ["1" if v is None or v < 0 else "0" for v in vs]
        elif rel == ">=":
            bs = ["1" if v is None or v >= 0 else "0" for v in vs]
        elif rel == "==":
            bs = ["1" if v is None or v == 0 else "0" for v in vs]
        else:
            bs = ["1" if v is None or v != 0 else "0" for v in vs]
        m = int("".join(reversed(bs)), 2) if bs else 0
        _mask_cache[key] = m
    return m


def bit_indices(m):
    i = 0
    s = bin(m)[:1:-1]
    i = s.find("1")
    while i >= 0:
        yield i
        i = s.find("1", i + 1)


class Facts(object):
    __slots__ = ("iv", "ne", "vs", "_ivc", "_dec", "_simp", "axioms", "_fmc", "fm", "_cons")

    def __init__(self, iv=None, ne=None, vs=None, axioms=None, fm=True):
        self.iv = iv or {}
        self.ne = ne or {}
        self.vs = vs or {}
        self.axioms = axioms
        self.fm = fm
        self._ivc = {}
        self._dec = {}
        self._simp = {}
        self._fmc = {}
        self._cons = None

    def copy(self):
        return Facts(dict(self.iv), dict(self.ne), dict(self.vs), self.axioms, self.fm)

    # ------------------------------------------------------------ intervals
    def root_mask(self, root):
        m = self.vs.get(root)
        if root.kind == "read":
            lo, hi = self.interval(root.args[1])
            n = len(root.args[0].data)
            lo = 0 if lo is None else max(lo, 0)
            hi = n - 1 if hi is None else min(hi, n - 1)
            key = (root, lo, hi)
            rm = _region_cache.get(key)
            if rm is None:
                if lo == 0 and hi == n - 1:
                    rm = (1 << len(domain(root))) - 1
                else:
                    s = set(root.args[0].data[lo:hi + 1])
                    bs = ["1" if v in s else "0" for v in domain(root)]
                    rm = int("".join(reversed(bs)), 2)
                _region_cache[key] = rm
            m = rm if m is None else m & rm
        elif m is None:
            m = (1 << len(domain(root))) - 1
        return m

    def interval_root(self, root, x):
        vs = values_on(root, x)
        m = self.root_mask(root)
        lo = hi = None
        first = True
        for i in bit_indices(m):
            v = vs[i]
            if v is None:
                return self._atomwise(x)
            if first:
                lo = hi = v
                first = False
            elif v < lo:
                lo = v
            elif v > hi:
                hi = v
        return lo, hi

    def _atomwise(self, x):
        lo = hi = x.const
        for a, k in x.terms:
            l, h = self.atom_interval(a, True)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def interval(self, x):
        if not x.terms:
            return x.const, x.const
        r = self._ivc.get(x)
        if r is not None:
            return r
        root = finite_root(x)
        if root is not None:
            r = self.interval_root(root, x)
            self._ivc[x] = r
            return r
        # group by finite root
        groups = {}
        rest = []
        if len(x.terms) > 1:
            for a, k in x.terms:
                fr = finite_root(lin(a))
                if fr is None:
                    rest.append((a, k))
                else:
                    groups.setdefault(fr, []).append((a, k))
        else:
            rest = list(x.terms)
        lo = hi = x.const
        for fr, ts in groups.items():
            l, h = self.interval(Lin(tuple(ts), 0))
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        if len(rest) > 1 and groups:
            l, h = self.interval(Lin(tuple(rest), 0))
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        else:
            for a, k in rest:
                l, h = self.atom_interval(a)
                if k < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
        # recorded facts on the shape
        if len(x.terms) > 1:
            s, g = shape_of(x)
            b = self.iv.get(s)
            if b is not None:
                l, h = b
                if g < 0:
                    l, h = h, l
                if l is not None:
                    l = g * l + x.const
                    lo = l if lo is None else max(lo, l)
                if h is not None:
                    h = g * h + x.const
                    hi = h if hi is None else min(hi, h)
            # bit-field bounds: s = X>>lo - 2^w (X>>hi)
            w = field_width(s)
            if w is not None:
                l, h = (0, w - 1) if g > 0 else (w - 1, 0)
                l = g * l + x.const
                h = g * h + x.const
                lo = l if lo is None else max(lo, l)
                hi = h if hi is None else min(hi, h)
            # sums of bit fields
            elif len(x.terms) > 2:
                fl = field_sum(x)
                if fl is not None:
                    l = h = x.const
                    for (flo, fhi) in [self._fld(y) for y in fl]:
                        l = None if l is None or flo is None else l + flo
                        h = None if h is None or fhi is None else h + fhi
                    if l is not None:
                        lo = l if lo is None else max(lo, l)
                    if h is not None:
                        hi = h if hi is None else min(hi, h)
        r = (lo, hi)
        self._ivc[x] = r
        return r

    def _fld(self, y):
        return self.interval(y)

    def atom_interval(self, a, raw=False):
        fr = None if raw else finite_root(lin(a))
        if fr is not None:
            return self.interval(lin(a))
        lo, hi = a.lo, a.hi
        if a.kind == "div":
            l, h = self.interval(a.args[0])
            d = a.args[1]
            if l is not None:
                l = l // d
                lo = l if lo is None else max(lo, l)
            if h is not None:
                h = h // d
                hi = h if hi is None else min(hi, h)
        elif a.kind == "read":
            t = a.args[0]
            if isinstance(t, Table):
                l, h = self.interval(a.args[1])
                r = t.rng(0 if l is None else l, len(t.data) if h is None else h)
                if r is not None:
                    lo = r[0] if lo is None else max(lo, r[0])
                    hi = r[1] if hi is None else min(hi, r[1])
        elif a.kind == "op":
            l, h = self.op_interval(a)
            if l is not None:
                lo = l if lo is None else max(lo, l)
            if h is not None:
                hi = h if hi is None else min(hi, h)
        b = self.iv.get(lin(a))
        if b is not None:
            if b[0] is not None:
                lo = b[0] if lo is None else max(lo, b[0])
            if b[1] is not None:
                hi = b[1] if hi is None else min(hi, b[1])
        return lo, hi

    def op_interval(self, a):
        n = a.args[0]
        ivs = [self.interval(y) if isinstance(y, Lin) else (None, None) for y in a.args[1:]]
        if n == "mul":
            (l1, h1), (l2, h2) = ivs
            if None not in (l1, h1, l2, h2):
                p = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
                return min(p), max(p)
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                return l1 * l2, None
        elif n in ("or", "xor"):
            (l1, h1), (l2, h2) = ivs
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                hi = None
                if h1 is not None and h2 is not None:
                    hi = (1 << max(h1.bit_length(), h2.bit_length())) - 1
                return (max(l1, l2) if n == "or" else 0), hi
        elif n == "and":
            (l1, h1), (l2, h2) = ivs
            hi = None
            if l1 is not None and l1 >= 0:
                hi = h1
            if l2 is not None and l2 >= 0:
                hi = h2 if hi is None else (hi if h2 is None else min(hi, h2))
            if (l1 is not None and l1 >= 0) or (l2 is not None and l2 >= 0):
                return 0, hi
        elif n == "pow2":
            (l1, h1), = ivs
            return (1 << l1 if l1 is not None and l1 >= 0 else None), (1 << h1 if h1 is not None and 0 <= h1 < 200 else None)
        elif n == "mod":
            (l1, h1), (l2, h2) = ivs
            if l2 is not None and l2 > 0:
                return 0, (None if h2 is None else h2 - 1)
        elif n == "floordiv":
            (l1, h1), (l2, h2) = ivs
            if l1 is not None and l1 >= 0 and l2 is not None and l2 > 0:
                return 0, (None if h1 is None else h1 // l2)
        elif n == "shr":
            (l1, h1), (l2, h2) = ivs
            if l1 is not None and l1 >= 0:
                return 0, h1
        return None, None

    # ------------------------------------------------------------ decisions
    def decide(self, x, rel):
        """rel in '<' (x<0) or '==' (x==0): True, False or None."""
        if not x.terms:
            return x.const < 0 if rel == "<" else x.const == 0
        key = (x, rel)
        r = self._dec.get(key, 0)
        if r != 0:
            return r
        r = self._decide(x, rel)
        self._dec[key] = r
        return r

    def _decide(self, x, rel):
        root = finite_root(x)
        if root is not None:
            m = self.root_mask(root)
            t = mask_on(root, x, "<" if rel == "<" else "==")
            f = mask_on(root, x, ">=" if rel == "<" else "!=")
            ct, cf = bool(m & t), bool(m & f)
            if ct and not cf:
                return True
            if cf and not ct:
                return False
            return None
        lo, hi = self.interval(x)
        if rel == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            if has_frac(x):
                return None
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo is not None and lo == hi == 0:
                return True
            if has_frac(x):
                return None
            s, g = shape_of(x)
            if x.const % abs(g):
                return False
            v = -x.const // g
            n = self.ne.get(s)
            if n is not None and v in n:
                return False
        if not self.fm or not self.relational(x):
            return None
        if rel == "<":
            if not self.feasible(x, ">="):
                return True
            if not self.feasible(x, "<"):
                return False
            return None
        lt, gt = self.feasible(x, "<"), self.feasible(x, ">")
        if not lt and not gt:
            return True
        # equality impossible?
        if not self.feasible(x, "=="):
            return False
        return self.by_elimination(x)

    def by_elimination(self, x):
        """x == 0 decided by the equalities (Gaussian elimination) and disequalities known."""
        if not self.ne:
            return None
        el = self._ivc.get("elim")
        if el is None:
            rows = []
            for s, (lo, hi) in self.iv.items():
                if lo is not None and lo == hi:
                    e = reduce_by(rows, sub(s, lin(lo)))
                    if e.terms:
                        rows.append(e)
            ds = set()
            for s, vals in self.ne.items():
                if rows or len(s.terms) > 1:
                    for v in vals:
                        d = reduce_by(rows, sub(s, lin(v)))
                        if d.terms:
                            ds.add(monic(d))
            el = self._ivc["elim"] = (rows, ds)
        rows, ds = el
        y = reduce_by(rows, x)
        if not y.terms:
            return y.const == 0
        return False if monic(y) in ds else None

    def relational(self, x):
        """Could the polyhedral step say more than the intervals already did?"""
        if len(x.terms) > 1 or self.axioms is not None:
            return True
        a = x.terms[0][0]
        for s in self.iv:
            if len(s.terms) > 1 and any(b is a for b, _ in s.terms):
                return True
            for b, _ in s.terms:
                if b.kind == "div" and any(z is a for z, _ in b.args[0].terms):
                    return True
        if a.kind == "div" and len(a.args[0].terms) > 1:
            return True
        return False

    # ------------------------------------------------------------ assumption
    def assume(self, x, rel):
        """rel in '<','>=','==','!='. Returns new Facts, or None if contradictory."""
        if rel not in ("<", ">=", "==", "!="):
            raise ValueError(rel)
        if not x.terms:
            c = x.const
            ok = {"<": c < 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[rel]
            return self if ok else None
        root = finite_root(x)
        if root is not None:
            m = self.root_mask(root) & mask_on(root, x, rel)
            if not m:
                return None
            n = self.copy()
            n.vs[root] = m
            return n
        n = self.copy()
        if has_frac(x):
            k = 1
            for c in [x.const] + [c for _, c in x.terms]:
                if isinstance(c, Fraction):
                    k = k * c.denominator // gcd(k, c.denominator)
            x = scale(x, k)
        s, g = shape_of(x)
        ok = True
        if rel == "!=":
            if x.const % abs(g) == 0:
                v = -x.const // g
                n.ne[s] = n.ne.get(s, frozenset()) | {v}
                lo, hi = n.interval(s)
                n._ivc = {}
                ok = n._tighten(s, lo, hi)
        elif rel == "==":
            if x.const % abs(g):
                return None
            v = -x.const // g
            ok = n._bound(s, v, v)
        elif rel == "<":
            # g*s + c <= -1
            if g > 0:
                ok = n._bound(s, None, (-1 - x.const) // g)
            else:
                ok = n._bound(s, -((-1 - x.const) // -g), None)
        else:
            # g*s + c >= 0
            if g > 0:
                ok = n._bound(s, -(x.const // g), None)
            else:
                ok = n._bound(s, None, x.const // -g)
        if not ok:
            return None
        n._ivc = {}
        n._dec = {}
        n._simp = {}
        n._fmc = {}
        return n

    def _tighten(self, s, lo, hi):
        ne = self.ne.get(s)
        if ne:
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return False
        old = self.iv.get(s)
        if old != (lo, hi) and (lo is not None or hi is not None):
            self.iv[s] = (lo, hi)
            self._ivc = {}
            if len(s.terms) == 1:
                a = s.terms[0][0]
                if a.kind == "div":
                    X, d = a.args
                    return self._bound_lin(X, None if lo is None else lo * d, None if hi is None else hi * d + d - 1)
        return True

    def _bound(self, s, lo, hi):
        self._ivc = {}
        l, h = self.interval(s)
        if lo is not None:
            l = lo if l is None else max(l, lo)
        if hi is not None:
            h = hi if h is None else min(h, hi)
        if l is not None and h is not None and l > h:
            return False
        return self._tighten(s, l, h)

    def _bound_lin(self, x, lo, hi):
        if not x.terms:
            return (lo is None or lo <= x.const) and (hi is None or x.const <= hi)
        root = finite_root(x)
        if root is not None:
            m = self.root_mask(root)
            if lo is not None:
                m &= mask_on(root, add(x, -lo), ">=")
            if hi is not None:
                m &= mask_on(root, sub(lin(hi), x), ">=")
            if not m:
                return False
            self.vs[root] = m
            self._ivc = {}
            return True
        s, g = shape_of(x)
        if lo is not None:
            lo -= x.const
        if hi is not None:
            hi -= x.const
        if g < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            g = -g
        return self._bound(s, None if lo is None else -((-lo) // g), None if hi is None else hi // g)

    # ------------------------------------------------------------ polyhedra
    def constraints(self):
        """All linear constraints (dict, const) meaning sum + const >= 0."""
        if self._cons is not None:
            return self._cons
        cons = []
        for s, (lo, hi) in self.iv.items():
            if lo is not None:
                cons.append((dict(s.terms), -lo))
            if hi is not None:
                cons.append(({a: -k for a, k in s.terms}, hi))
        self._cons = cons
        return cons

    def feasible(self, x, rel):
        key = (x, rel)
        r = self._fmc.get(key)
        if r is None:
            r = self._fmc[key] = self._feasible(x, rel)
        return r

    def gather(self, x, rel):
        d = dict(x.terms)
        q = []
        if rel == "<":
            q.append(({a: -k for a, k in d.items()}, -x.const - 1))
        elif rel == ">=":
            q.append((d, x.const))
        elif rel == ">":
            q.append((d, x.const - 1))
        else:
            q.append((d, x.const))
            q.append(({a: -k for a, k in d.items()}, -x.const))
        cons = list(self.constraints())
        # relevant closure
        atoms = set(d)
        frontier = set(d)
        used = set()
        out = list(q)
        seen_atoms = set()
        extra = []
        n = 0
        while frontier:
            new = set()
            for a in frontier:
                seen_atoms.add(a)
                if a.kind == "div":
                    X, k = a.args
                    c1 = dict(X.terms)
                    c1[a] = c1.get(a, 0) - k
                    out.append((c1, X.const))                       # X - k a >= 0
                    out.append(({b: -v for b, v in c1.items()}, -X.const + k - 1))
                    new |= set(X.terms and [b for b, _ in X.terms])
                lo, hi = self.atom_interval(a)
                if lo is not None:
                    out.append(({a: 1}, -lo))
                if hi is not None:
                    out.append(({a: -1}, hi))
            for i, (c, k) in enumerate(cons):
                if i in used:
                    continue
                if any(a in frontier for a in c):
                    used.add(i)
                    out.append((c, k))
                    new |= set(c)
            frontier = new - seen_atoms
            if len(seen_atoms) > 40:
                break
            # div atoms known to the facts whose argument mentions our atoms
            if not frontier and not extra:
                extra = [b for s in self.iv for b, _ in s.terms if b.kind == "div" and b not in seen_atoms
                         and any(z in seen_atoms for z, _ in b.args[0].terms)]
                frontier = set(extra)
                if not extra:
                    extra = [None]
        if self.axioms is not None:
            out.extend(self.axioms(self, seen_atoms))
        return out

    def _feasible(self, x, rel):
        return fm_feasible(self.gather(x, rel))

    # ------------------------------------------------------------ rewriting
    def simplify(self, x):
        if not isinstance(x, Lin) or not x.terms:
            return x
        r = self._simp.get(x)
        if r is not None:
            return r
        out = lin(x.const)
        for a, k in x.terms:
            out = add(out, scale(self._simp_atom(a), k))
        if x.f and not out.f:
            out = Lin(out.terms, out.const, True)
        if out.terms:
            lo, hi = self.interval(out)
            if lo is not None and lo == hi:
                out = Lin((), lo, out.f)
        self._simp[x] = out
        return out

    def _simp_atom(self, a):
        lo, hi = self.atom_interval(a)
        if lo is not None and lo == hi:
            return lin(lo)
        if a.kind == "div":
            x, m = a.args
            if len(x.terms) == 1 and x.const == 0 and x.terms[0][1] == 1 and not m & (m - 1):
                # a bit field above bit log2(m) that the facts fix
                b, big = x.terms[0][0], 2 * m
                while big <= 65536:
                    s, g = shape_of(sub(lin(b), scale(div(lin(b), big), big)))
                    if g == 1:
                        iv = self.iv.get(s)
                        if iv is not None and None not in iv and iv[0] // m == iv[1] // m:
                            return add(scale(self.simplify(div(lin(b), big)), big // m), iv[0] // m)
                    big *= 2
            return div(self.simplify(x), m, self.interval)
        if a.kind == "read":
            i = self.simplify(a.args[1])
            if isinstance(a.args[0], Table) and not i.terms and not 0 <= i.const < len(a.args[0].data):
                return lin(a)
            return read(a.args[0], i)
        if a.kind == "op":
            return lin(mk_atom("op", (a.args[0],) + tuple(self.simplify(y) if isinstance(y, Lin) else y for y in a.args[1:])))
        return lin(a)

    def equal(self, x, y):
        """True / False / None for numeric normal forms."""
        d = sub(lin(x), lin(y))
        if not d.terms:
            return d.const == 0
        root = finite_root(d)
        if root is not None:
            m = self.root_mask(root)
            if not m & mask_on(root, d, "!="):
                return True
            if not m & mask_on(root, d, "=="):
                return False
            return None
        d = self.simplify(d)
        if not d.terms:
            return d.const == 0
        return self.decide(d, "==")

    def inconsistent(self):
        """Do the recorded facts contradict each other (as far as intervals tell)?"""
        f = self.copy()
        f._ivc, f._dec, f._simp, f._fmc = {}, {}, {}, {}
        for s in list(f.iv) + list(f.ne):
            lo, hi = f.interval(s)
            b = f.iv.get(s)
            if b is not None:
                if b[0] is not None:
                    lo = b[0] if lo is None else max(lo, b[0])
                if b[1] is not None:
                    hi = b[1] if hi is None else min(hi, b[1])
            if lo is None or hi is None:
                continue
            if lo > hi:
                return True
            n = f.ne.get(s)
            if n and hi - lo < 64 and all(v in n for v in range(lo, hi + 1)):
                return True
        return False

    def describe(self):
        out = []
        for s, (lo, hi) in self.iv.items():
            if lo == hi:
                out.append("%s == %s" % (show(s), lo))
            else:
                out.append("%s <= %s <= %s" % ("" if lo is None else lo, show(s), "" if hi is None else hi))
        for s, v in self.ne.items():
            out.append("%s not in %s" % (show(s), sorted(v)))
        for r, m in self.vs.items():
            vals = [domain(r)[i] for i in bit_indices(m)]
            out.append("%s in {%s%s}" % (show_atom(r), ", ".join(hex(v) for v in vals[:4]), ", ..." if len(vals) > 4 else ""))
        return out


def reduce_by(rows, x):
    for e in rows:
        a, k = e.terms[0]
        for b, c in x.terms:
            if b is a:
                x = sub(x, scale(e, Fraction(c) / k))
                break
    return x


def monic(x):
    return scale(x, Fraction(1) / x.terms[0][1])


def field_width(s):
    """s == bits(X, lo, hi)?  Returns 2**(hi-lo), else None (s primitive)."""
    for a, k in s.terms:
        if k < 0 and a.kind == "div":
            d = a.args[1]
            w = -k
            if d % w == 0:
                t = add(s, scale(lin(a), w))
                if t == div(a.args[0], d // w):
                    return w
    return None


_fs_cache = {}


def field_sum(x):
    """Write the non-constant part of x as a sum of scaled bit fields."""
    key = Lin(x.terms, 0)
    r = _fs_cache.get(key, 0)
    if r != 0:
        return r
    rest = key
    out = []
    while rest.terms:
        for a, k in rest.terms:
            if a.kind != "div" or k >= 0:
                continue
            X, d = a.args
            best = None
            # field of X ending at d: coefficient of (X // (d/w)) must be k0 with k = -k0*w
            for b, kb in rest.terms:
                if kb <= 0 or -k % kb:
                    continue
                w = -k // kb
                if w <= 1 or d % w:
                    continue
                lowpart = div(X, d // w)
                if lowpart == lin(b):
                    best = (kb, w, lowpart)
                    break
            if best is not None:
                kb, w, lowpart = best
                f = scale(sub(lowpart, scale(lin(a), w)), kb)
                out.append(f)
                rest = sub(rest, f)
                break
        else:
            out = None
            break
    if out is not None and len(out) < 2:
        out = None
    _fs_cache[key] = out
    return out


def fm_feasible(cons, cap=500):
    """Rational (integer tightened) feasibility of {c.x + k >= 0}."""
    rows = set()
    for c, k in cons:
        r = _normrow(c, k)
        if r is False:
            return False
        if r is not None:
            rows.add(r)
    rows = _dedupe(rows)
    if rows is None:
        return False
    while True:
        if not rows:
            return True
        # equalities first
        sub_done = False
        idx = {}
        for r in rows:
            idx[r[0]] = r
        for (t, k) in list(rows):
            nt = tuple((a, -c) for a, c in t)
            o = idx.get(nt)
            if o is not None and o[1] == -k:
                # equality t + k == 0; use a unit coefficient
                for a, c in t:
                    if abs(c) == 1:
                        rows = _substitute(rows, a, c, t, k)
                        if rows is None:
                            return False
                        sub_done = True
                        break
                if sub_done:
                    break
        if sub_done:
            continue
        # pick the cheapest variable
        pos, neg = {}, {}
        for (t, k) in rows:
            for a, c in t:
                if c > 0:
                    pos.setdefault(a, []).append((t, k, c))
                else:
                    neg.setdefault(a, []).append((t, k, c))
        best = None
        for a in set(pos) | set(neg):
            n = len(pos.get(a, ())) * len(neg.get(a, ())) - len(pos.get(a, ())) - len(neg.get(a, ()))
            if best is None or n < best[0] or (n == best[0] and a.uid < best[1].uid):
                best = (n, a)
        a = best[1]
        new = set()
        P, N = pos.get(a, ()), neg.get(a, ())
        if len(P) * len(N) > 40 * cap:
            return True
        drop = set()
        for (t, k, _) in P:
            drop.add((t, k))
        for (t, k, _) in N:
            drop.add((t, k))
        keep = rows - drop
        for (t1, k1, c1) in P:
            for (t2, k2, c2) in N:
                m1, m2 = -c2, c1
                d = {}
                for b, c in t1:
                    d[b] = d.get(b, 0) + c * m1
                for b, c in t2:
                    d[b] = d.get(b, 0) + c * m2
                r = _normrow(d, k1 * m1 + k2 * m2)
                if r is False:
                    return False
                if r is not None:
                    new.add(r)
        rows = _dedupe(keep | new)
        if rows is None:
            return False
        if len(rows) > cap:
            return True


def _normrow(c, k):
    items = [(a, v) for a, v in c.items() if v != 0]
    if not items:
        return None if k >= 0 else False
    g = 0
    for _, v in items:
        g = gcd(g, v)
    if g > 1:
        items = [(a, v // g) for a, v in items]
        k = k // g
    items.sort(key=lambda t: t[0].uid)
    return (tuple(items), k)


def _dedupe(rows):
    best = {}
    for t, k in rows:
        o = best.get(t)
        if o is None or k < o:
            best[t] = k
    for t, k in best.items():
        nt = tuple((a, -c) for a, c in t)
        o = best.get(nt)
        if o is not None and o + k < 0:
            return None
    return set(best.items())


def _substitute(rows, a, c, t, k):
    # c*a + rest + k == 0  ->  a = -(rest + k)/c, c = +-1
    rest = {b: v for b, v in t if b is not a}
    out = set()
    for (t2, k2) in rows:
        d = dict(t2)
        v = d.pop(a, 0)
        if v:
            f = -v * c     # a = -c*(rest+k) since c = +-1
            for b, w in rest.items():
                d[b] = d.get(b, 0) + f * w
            k2 = k2 + f * k
        r = _normrow(d, k2)
        if r is False:
            return None
        if r is not None:
            out.add(r)
    return _dedupe(out)
