"""Agreement of two abstractly interpreted functions.

The function under analysis is interpreted to its leaves; the reference is then
interpreted under the facts of every leaf, and the two results are compared as
normal forms.  A disagreement is reported only with a concrete witness that
satisfies the facts of the path and separates the two normal forms.
"""
import random
import time
from fractions import Fraction
from .expr import *
from .facts import Facts, finite_root, domain, bit_indices, roots, values_on
from .vm import *
from .vm import NULL, PUSHED
from . import builtins_ as B


class Mismatch(object):
    def __init__(self, where, what, left, right, st):
        self.where, self.what, self.left, self.right, self.st = where, what, left, right, st
        self.witness = None


def flat(vm, st, v, depth=0):
    """Structure of a value: (skeleton, [numeric leaves])."""
    nums = []

    def go(v, d):
        if d > 8:
            raise Unsupported("deep value")
        if isinstance(v, bool):
            nums.append(lin(int(v)))
            return "#"
        if isinstance(v, (int, float, Lin)):
            nums.append(lin(v))
            return "#"
        if v is None:
            return None
        if isinstance(v, str):
            return ("s", v)
        if isinstance(v, SStr):
            ch = B.chars_of(v)
            if ch is not None:
                return ("schars",) + tuple(go(c, d + 1) for c in ch)
            out = []
            for p in v.pieces:
                if isinstance(p, str):
                    out.append(p)
                elif p[0] == "chr":
                    nums.append(p[1])
                    out.append("chr")
                elif p[0] == "fmt":
                    nums.append(p[1])
                    out.append(("fmt", p[2]))
                else:
                    out.append(p)
            return ("S",) + tuple(out)
        if isinstance(v, bytes):
            return ("b",) + tuple(go(x, d + 1) for x in v)
        if isinstance(v, FrozenV) and v.tag == "bytes":
            n = B.conc(unlin(B.bytes_len(v)))
            if n is not None and n <= 64:
                return ("b",) + tuple(go(unlin(read(v.data[0], add(lin(v.data[1]), i))), d + 1) for i in range(n))
            return ("bytes", v.data[0].name, go(v.data[1], d + 1), go(v.data[2], d + 1))
        if isinstance(v, tuple):
            return ("t",) + tuple(go(x, d + 1) for x in v)
        if isinstance(v, RangeV):
            return ("range", go(v.start, d + 1), go(v.stop, d + 1), go(v.step, d + 1))
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == "list":
                return ("l",) + tuple(go(x, d + 1) for x in o.items)
            if o.kind == "dict":
                return ("d",) + tuple((k, go(o.d[k], d + 1)) for k in sorted(o.d, key=repr))
            if o.kind == "set":
                return ("set",) + tuple(sorted((go(x, d + 1) for x in o.s), key=repr))
            if o.kind == "inst":
                fields = vm.lookup_type_attr(st, o.cls, "__nt_fields__")
                if fields is not None:
                    return ("t",) + tuple(go(o.attrs[x], d + 1) for x in fields)
                return ("i", v.id)
            return ("ref", v.id)
        if isinstance(v, ExcV):
            return ("exc", v.cls if isinstance(v.cls, str) else "user")
        return ("v", v)
    sk = go(v, 0)
    return sk, nums


def outcome(vm, st):
    if st.status == "raise":
        return ("raise", exc_name(vm, st))
    return ("ret", st.result)


def exc_name(vm, st):
    e = st.result
    if isinstance(e, ExcV):
        return e.cls if isinstance(e.cls, str) else st.get(e.cls).name
    return repr(e)


# ------------------------------------------------------------------ witnesses

class Witness(object):
    def __init__(self, seed=0):
        self.rnd = random.Random(seed)

    def table(self, salt):
        cache = {}

        def h(t, i):
            k = (t, i)
            v = cache.get(k)
            if v is None and t.known:
                v = t.known.get(i)
            if v is None:
                r = random.Random("%s|%s|%s" % (salt, t.name, i))
                v = cache[k] = r.randint(t.lo, t.hi)
            return v
        return h


def check_facts(facts, env):
    for s, (lo, hi) in facts.iv.items():
        v = ev(s, env)
        if lo is not None and v < lo or hi is not None and v > hi:
            return False
    for s, ns in facts.ne.items():
        if ev(s, env) in ns:
            return False
    for r, m in facts.vs.items():
        v = ev_atom(r, env)
        d = domain(r)
        i = _index(r).get(v)
        if i is None or not (m >> i) & 1:
            return False
    return True


_idx = {}


def _index(r):
    x = _idx.get(r)
    if x is None or len(x) != len(domain(r)):
        x = _idx[r] = {v: i for i, v in enumerate(domain(r))}
    return x


def all_vars(facts, lins):
    vs = set()

    def atom(a):
        vs.update(a.deps)
    for s in list(facts.iv) + list(facts.ne):
        for a, _ in s.terms:
            atom(a)
    for r in facts.vs:
        atom(r)
    for x in lins:
        for a, _ in x.terms:
            atom(a)
    return [a for a in sorted(vs, key=lambda a: a.uid)]


def find_witness(facts, diffs, skel_differs, limit=1200000, seed=1, hard=None):
    """An assignment of the inputs satisfying the facts where some difference is
    non-zero (or any assignment, when the structures differ)."""
    vs = all_vars(facts, diffs)
    free = [a for a in vs if a.kind == "var"]
    other = [a for a in vs if a.kind != "var"]      # opaque roots (op atoms without variables)
    if any(derived(a) for a in other) or any(derived(a) for a in leaf_atoms(list(diffs) + list(facts.iv) + list(facts.ne)) if a.kind == "op"):
        return None
    rnd = random.Random(seed)
    tab = Witness(seed)

    def test(env):
        try:
            if not check_facts(facts, env):
                return False
            if hard is not None and not hard(env):
                return False
            if skel_differs:
                return True
            return any(ev(d, env) != 0 for d in diffs)
        except NoValue:
            return False
        except (ZeroDivisionError, TypeError):
            return False

    if free and not other and hard is None and not uses_sym(facts, diffs):
        size = 1
        doms = []
        for a in free:
            lo, hi = facts.interval(lin(a))
            if lo is None or hi is None:
                size = None
                break
            doms.append((a, lo, hi))
            size *= max(0, hi - lo + 1)
        if size is not None and size <= limit:
            r = sweep(facts, diffs, skel_differs, doms)
            if r is not NotImplemented:
                return r if r is not None else INFEASIBLE
    if not free and not other:
        return {} if test({}) else None
    if len(free) > 1 and hard is None and separately(facts, diffs, skel_differs, limit):
        return INFEASIBLE
    if uses_sym(facts, diffs):
        for k in range(12):
            w = guided(facts, diffs, skel_differs, hard, random.Random("%s %s" % (seed, k)), 300 << (k // 3))
            if w is not None:
                return w
    # corner and random sampling
    cand = {}
    for a in free + other:
        lo, hi = facts.atom_interval(a)
        cs = set()
        if lo is not None:
            cs |= {lo, lo + 1, lo + 2, lo + 3}
        if hi is not None:
            cs |= {hi, hi - 1, hi - 2, hi - 3}
        if lo is None and hi is None:
            cs |= {-1, 0, 1}
        cs |= {c for c in (0, 1, 2, 7, 31, 32, 33, 63, 64, 255, 256, 2047, 2048, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000)}
        cs = sorted(c for c in cs if (lo is None or c >= lo) and (hi is None or c <= hi))
        cand[a] = (cs, lo if lo is not None else -(1 << 20), hi if hi is not None else (1 << 20))
    n = 20000
    for t in range(n):
        env = {}
        for a in free + other:
            cs, lo, hi = cand[a]
            u = rnd.random()
            if cs and u < 0.6:
                env[a] = rnd.choice(cs)
            elif u < 0.8:
                env[a] = rnd.randint(lo, min(hi, lo + 64))
            else:
                env[a] = rnd.randint(lo, hi)
        w = dict(env)
        env["sym"] = tab.table(t)
        if test(env):
            w["sym"] = t
            return w
    if not uses_sym(facts, diffs):
        for k in range(12):
            w = guided(facts, diffs, skel_differs, hard, random.Random("%s %s" % (seed, k)), 300 << (k // 3))
            if w is not None:
                return w
    return None


def separately(facts, diffs, skel_differs, limit):
    """Do the facts about some of the variables, which no fact ties to the others, have no solution?"""
    group = {}

    def find(a):
        while group.setdefault(a, a) is not a:
            a = group[a]
        return a

    def join(x):
        ds = [d for a, _ in x.terms for d in a.deps]
        if uses_sym(Facts(), [x]):
            ds.append("sym")
        for d in ds[1:]:
            group[find(d)] = find(ds[0])
        return find(ds[0]) if ds else None
    cons = [lin(x) for x in list(facts.iv) + list(facts.ne) + list(facts.vs)] + [lin(d) for d in diffs]
    for x in cons:
        join(x)
    for g in {find(a) for a in group}:
        vs = [a for a in group if find(a) is g]
        if "sym" in vs or any(a.kind != "var" for a in vs):
            continue
        size, doms = 1, []
        for a in sorted(vs, key=lambda a: a.uid):
            lo, hi = facts.interval(lin(a))
            if lo is None or hi is None:
                size = limit + 1
                break
            doms.append((a, lo, hi))
            size *= max(0, hi - lo + 1)
        if size > limit:
            continue
        part = Facts()
        part.iv = {x: v for x, v in facts.iv.items() if join(x) is g}
        part.ne = {x: v for x, v in facts.ne.items() if join(x) is g}
        part.vs = {x: v for x, v in facts.vs.items() if join(lin(x)) is g}
        if not (part.iv or part.ne or part.vs):
            continue
        own = [d for d in diffs if join(lin(d)) is g]
        if sweep(part, own, skel_differs or len(own) < len(diffs), doms) is None:
            return True
    return False


def derived(a):
    """An operation without a value here that depends on the inputs: no input may be claimed to give it a value."""
    def has(x, d=0):
        if isinstance(x, Lin):
            return True
        if isinstance(x, (tuple, list)):
            return any(has(y, d + 1) for y in x)
        if isinstance(x, SStr):
            return has(x.pieces, d + 1)
        if isinstance(x, FrozenV):
            return has(x.data, d + 1)
        return isinstance(x, (RangeV, Unk)) or x.__class__.__module__.startswith("sa.") and d > 8
    return a.kind == "op" and a.args[0] not in KNOWN_OPS and any(has(y) for y in a.args)


CORNERS = (0, 1, 2, 7, 31, 32, 33, 63, 64, 255, 256, 2047, 2048, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000)


def leaf_atoms(lins):
    """The free quantities of normal forms: variables, reads of unknown tables, opaque operations."""
    out, seen = [], set()

    def atom(a):
        if a in seen:
            return
        seen.add(a)
        for y in a.args:
            if isinstance(y, Lin):
                go(y)
        if a.kind == "var" or a.kind == "read" and isinstance(a.args[0], SymTable) or a.kind == "op" and a.args[0] not in KNOWN_OPS:
            out.append(a)

    def go(x):
        for a, _ in x.terms:
            atom(a)
    for x in lins:
        go(x)
    return out


def field_of(s, x):
    """(low bit, width) when the shape is a bit field of atom x."""
    sh, tot = [], 0
    for a, k in s.terms:
        if a is x:
            d = 1
        elif a.kind == "div" and len(a.args[0].terms) == 1 and a.args[0].terms[0] == (x, 1) and a.args[0].const == 0:
            d = a.args[1]
        else:
            return None
        if d & (d - 1):
            return None
        sh.append((d, k))
    if len(sh) == 1 and sh[0][1] == 1:
        return (sh[0][0].bit_length() - 1, 64)
    if len(sh) != 2:
        return None
    (d1, k1), (d2, k2) = sorted(sh)
    if k1 > 0 and k2 == -k1 * (d2 // d1):
        return (d1.bit_length() - 1, (d2 // d1).bit_length() - 1, k1)
    if k1 < 0 and k2 == -k1 * (d2 // d1):
        return (d1.bit_length() - 1, (d2 // d1).bit_length() - 1, k1)
    return None


def guided(facts, diffs, skel_differs, hard, rnd, nodes=6000):
    """Search for an assignment atom by atom: each free quantity takes a value that respects its bounds
    and bit-field facts, and every fact is tested as soon as its quantities are known."""
    cons = [("iv", s, v) for s, v in facts.iv.items()] + [("ne", s, v) for s, v in facts.ne.items()] + [("vs", lin(r), m) for r, m in facts.vs.items()]
    order = leaf_atoms([c[1] for c in cons] + [lin(d) for d in diffs])
    if not order or len(order) > 200:
        return None
    order.sort(key=lambda a: a.depth)
    pos = {a: i for i, a in enumerate(order)}
    at = [[] for _ in order]
    hints, linear = {}, {}
    for k, s, v in cons:
        if k == "iv":
            for a, _ in s.terms:
                linear.setdefault(a, []).append((s, v))
    for c in cons:
        ls = leaf_atoms([c[1]])
        if not ls:
            continue
        at[max(pos[a] for a in ls)].append(c)
        if c[0] == "iv":
            for a in ls:
                f = field_of(c[1], a)
                if f is not None:
                    hints.setdefault(a, []).append((f, c[2]))
    budget = [nodes]
    style = rnd.choice([(0.4, 0.6, 64), (0.05, 0.9, 64), (0.1, 0.9, 1 << 12), (0.1, 0.2, 64), (0.05, 0.95, 256)])

    def holds(c, env):
        k, s, v = c
        if k == "vs":
            a = s.terms[0][0]
            i = _index(a).get(ev_atom(a, env))
            return i is not None and (v >> i) & 1
        x = ev(s, env)
        if k == "ne":
            return x not in v
        return (v[0] is None or x >= v[0]) and (v[1] is None or x <= v[1])

    def narrow(a, lo, hi, env):
        # linear facts, with what is known about their other quantities
        for s, (l, h) in linear.get(a, ()):
            k, rl, rh = None, s.const, s.const
            for b, kk in s.terms:
                if b is a:
                    k = kk
                    continue
                try:
                    x = y = ev_atom(b, env)
                except NoValue:
                    x, y = bounds.get(b) or facts.atom_interval(b)
                if kk < 0:
                    x, y = y, x
                rl = None if rl is None or x is None else rl + kk * x
                rh = None if rh is None or y is None else rh + kk * y
            l = None if l is None or rh is None else Fraction(l - rh, 1) / k
            h = None if h is None or rl is None else Fraction(h - rl, 1) / k
            if k < 0:
                l, h = h, l
            if l is not None:
                lo = -(-l.numerator // l.denominator) if lo is None else max(lo, -(-l.numerator // l.denominator))
            if h is not None:
                hi = h.numerator // h.denominator if hi is None else min(hi, h.numerator // h.denominator)
        return lo, hi
    bounds = {a: facts.atom_interval(a) for a in order}
    for _ in range(3):
        for a in order:
            if a in linear:
                bounds[a] = narrow(a, *bounds[a], {"sym": lookup_in({})})

    def values(a, env):
        lo, hi = narrow(a, *bounds[a], env)
        if lo is not None and hi is not None and lo > hi:
            return []
        l = lo if lo is not None else (hi - (1 << 20) if hi is not None else -(1 << 20))
        h = hi if hi is not None else l + (1 << 20)
        cs = [l, h, l + 1, h - 1] + list(CORNERS)
        out = []
        for i in range(24):
            u = rnd.random()
            if u < style[0]:
                v = rnd.choice(cs)
            elif u < style[1]:
                v = rnd.randint(l, min(h, l + style[2]))
            else:
                v = rnd.randint(l, h)
            for f, (bl, bh) in hints.get(a, ()):
                if len(f) != 3:
                    continue
                b, w, k = f
                bl2, bh2 = (0 if bl is None else bl), ((1 << w) * abs(k) if bh is None else bh)
                if k < 0:
                    bl2, bh2 = (0 if bh is None else -bh), ((1 << w) * -k if bl is None else -bl)
                k = abs(k)
                bl2, bh2 = max(0, -(-bl2 // k)), min((1 << w) - 1, bh2 // k)
                if bl2 > bh2:
                    continue
                m = ((1 << w) - 1) << b
                if not bl2 <= (v & m) >> b <= bh2 and v >= 0:
                    v = (v & ~m) | (rnd.randint(bl2, bh2) << b)
            if l <= v <= h and v not in out:
                out.append(v)
        return out

    def final(env, mem):
        if hard is not None and not hard(env):
            return False
        if not check_facts(facts, env):
            return False
        return skel_differs or any(ev(d, env) != 0 for d in diffs)

    def dfs(i, base, mem):
        if budget[0] <= 0:
            return None
        budget[0] -= 1
        if i == len(order):
            env = dict(base)
            env["sym"] = lookup_in(mem)
            try:
                if final(env, mem):
                    w = dict(base)
                    w["sym"] = dict(mem)
                    return w
            except (NoValue, ZeroDivisionError, TypeError):
                pass
            return None
        a = order[i]
        env = dict(base)
        env["sym"] = lookup_in(mem)
        key = None
        try:
            if a.kind == "read":
                key = (a.args[0], ev(a.args[1], env))
                fixed = mem.get(key, key[0].known.get(key[1]) if isinstance(key[0], SymTable) else None)
                cand = [fixed] if fixed is not None else values(a, env)
            else:
                cand = values(a, env)
        except (NoValue, ZeroDivisionError, TypeError):
            return None
        for v in cand:
            b2, m2 = dict(base), mem
            if key is not None:
                m2 = dict(mem)
                m2[key] = v
            else:
                b2[a] = v
            env = dict(b2)
            env["sym"] = lookup_in(m2)
            try:
                if not all(holds(c, env) for c in at[i]):
                    continue
            except (NoValue, ZeroDivisionError, TypeError):
                continue
            r = dfs(i + 1, b2, m2)
            if r is not None:
                return r
            if budget[0] <= 0:
                return None
        return None
    return dfs(0, {}, {})


def lookup_in(mem):
    def h(t, i):
        v = mem.get((t, i))
        if v is None:
            v = t.known.get(i)
        if v is None:
            raise NoValue(t)
        return v
    return h


def sym_of(s):
    """The table contents of a witness."""
    return lookup_in(s) if isinstance(s, dict) else Witness(1).table(s)


def uses_sym(facts, lins):
    seen = set()

    def go(x):
        if isinstance(x, Lin):
            return any(ga(a) for a, _ in x.terms)
        return False

    def ga(a):
        if a in seen:
            return False
        seen.add(a)
        if a.kind == "read" and isinstance(a.args[0], SymTable):
            return True
        return any(go(y) for y in a.args)
    return any(go(s) for s in list(facts.iv) + list(facts.ne) + list(lins)) or any(ga(r) for r in facts.vs)


def show_witness(w):
    out = []
    for a, v in w.items():
        if a == "sym":
            if isinstance(v, dict):
                out += ["%s[%s]=%s" % (t.name, i, hex(x) if isinstance(x, int) and x >= 0 else x) for (t, i), x in v.items()]
            else:
                out.append("table contents #%s" % v)
        else:
            out.append("%s=%s" % (show_atom(a), hex(v) if isinstance(v, int) and v >= 0 else v))
    return ", ".join(out)


INFEASIBLE = "infeasible"


def sweep(facts, diffs, skel_differs, doms):
    """Decide by finite enumeration whether the facts and (some difference
    non-zero) are satisfiable; a first solution, None, or NotImplemented."""
    names, lines, env, count = {}, [], {"F": Fraction, "OP": ev_op}, [0]
    for i, (a, lo, hi) in enumerate(doms):
        names[a] = "v%d" % i

    def text(x):
        parts = [num(x.const)] if x.const or not x.terms else []
        for a, k in x.terms:
            parts.append(atom(a) if k == 1 else "%s*%s" % (num(k), atom(a)))
        return "+".join(parts)

    def num(k):
        return "F(%d,%d)" % (k.numerator, k.denominator) if isinstance(k, Fraction) else "(%r)" % (k,)

    def atom(a):
        n = names.get(a)
        if n is not None:
            return n
        count[0] += 1
        n = "a%d" % count[0]
        if a.kind == "div":
            lines.append("%s=(%s)//%d" % (n, text(a.args[0]), a.args[1]))
        elif a.kind == "read":
            t = a.args[0]
            tn = "T%d" % id(t)
            env[tn] = t.data
            x = text(a.args[1])
            lines.append("i=%s" % x)
            lines.append("if i<0 or i>=%d: continue" % len(t.data))
            lines.append("%s=%s[i]" % (n, tn))
        elif a.kind == "op" and a.args[0] in KNOWN_OPS:
            lines.append("%s=OP(%r,[%s])" % (n, a.args[0], ",".join(text(y) if isinstance(y, Lin) else repr(y) for y in a.args[1:])))
        else:
            raise NoValue(a)
        names[a] = n
        return n
    conds = [(max([t[0].depth for t in s.terms] or [0]), "iv", s, v) for s, v in facts.iv.items()]
    conds += [(max([t[0].depth for t in s.terms] or [0]), "ne", s, v) for s, v in facts.ne.items()]
    conds += [(r.depth, "vs", r, m) for r, m in facts.vs.items()]
    conds.sort(key=lambda t: t[0])
    try:
        for _, kind, s, v in conds:
            if kind == "vs":
                nm = "S%d" % len(env)
                env[nm] = frozenset(x for i, x in enumerate(domain(s)) if (v >> i) & 1)
                lines.append("if %s not in %s: continue" % (atom(s), nm))
                continue
            x = text(s)
            if kind == "iv":
                lo, hi = v
                lines.append("x=%s" % x)
                c = []
                if lo is not None:
                    c.append("x<%s" % num(lo))
                if hi is not None:
                    c.append("x>%s" % num(hi))
                lines.append("if %s: continue" % " or ".join(c) if c else "pass")
            else:
                nm = "S%d" % len(env)
                env[nm] = frozenset(v)
                lines.append("if (%s) in %s: continue" % (x, nm))
        ret = "return (%s,)" % ",".join(names[a] for a, _, _ in doms)
        if skel_differs:
            lines.append(ret)
        else:
            for d in diffs:
                x = text(lin(d))
                lines.append("if (%s)!=0: %s" % (x, ret))
    except NoValue:
        return NotImplemented
    src = "def f():\n"
    ind = " "
    for a, lo, hi in doms:
        src += "%sfor %s in range(%d,%d):\n" % (ind, names[a], lo, hi + 1)
        ind += " "
    src += "%stry:\n" % ind + "".join("%s %s\n" % (ind, x) for x in lines) + "%sexcept (NoValue, ZeroDivisionError): continue\n" % ind
    env["NoValue"] = NoValue
    exec(src, env)
    r = env["f"]()
    if r is None:
        return None
    return {a: v for (a, _, _), v in zip(doms, r)}


KNOWN_OPS = {"mul", "or", "and", "xor", "pow2", "fdiv", "floordiv", "mod", "shr", "shl", "pow"}


# ------------------------------------------------------------------ comparison

def compare_values(vm, st, x, y, truthy=False):
    """-> (skeletons_equal, [differences])"""
    if truthy:
        x = truth_value(vm, st, x)
        y = truth_value(vm, st, y)
    sx, nx = flat(vm, st, x)
    sy, ny = flat(vm, st, y)
    if sx != sy:
        # literal text against symbolic characters
        if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
            a, b = B.chars_of(x), B.chars_of(y)
            if a is not None and b is not None and len(a) == len(b):
                return True, [sub(p, q) for p, q in zip(a, b)]
        return False, []
    return True, [sub(p, q) for p, q in zip(nx, ny)]


def truth_value(vm, st, v):
    if isinstance(v, Lin):
        root = finite_root(v)
        d = st.facts.decide(v, "==")
        if d is not None:
            return not d
        return v if st.facts.interval(v) in ((0, 1),) else v
    if isinstance(v, ExcV):
        return v
    t = B.truth(vm, st, v)
    if isinstance(t, CallLater):
        return v
    return t


class Equiv(object):
    """Compare func with ref over all inputs."""

    def __init__(self, project, name):
        self.p, self.vm, self.name = project, project.vm, name
        self.paths = self.leaves = self.undecided = self.refuted = 0
        self.spent = 0                  # on the search for witnesses
        self.problems = []
        self.undecided_list = []
        self.functions = set()

    def run(self, func, ref, make_args, facts=None, truthy=False, norm=None, ref_norm=None, exc_ok=None, sites=True,
            hard=None, ref_args=None, keep=False, apart=False):
        vm = self.vm
        st = self.p.state(facts)
        args, kw = make_args(vm, st)
        covered0 = vm.covered
        broken = []
        returned = []

        def checked(leaf):
            self.paths += 1
            if norm is not None and leaf.status == "ret":
                leaf = norm(vm, leaf)
            out = outcome(vm, leaf)
            trace = leaf.trace_list()
            s2 = leaf.clone()
            s2.status, s2.result, s2.frames = "run", None, []
            if apart:                   # the reference does not see what func changed of what was there before
                s2.heap = {i: o for i, o in s2.heap.items() if i not in vm.base}
            a2 = ref_args(vm, s2, args) if ref_args is not None else args
            if keep:
                returned.append(leaf)

            def judged(r):
                self.leaves += 1
                if ref_norm is not None and r.status == "ret":
                    r = ref_norm(vm, r)
                self.compare(leaf, out, r, outcome(vm, r), truthy, trace, exc_ok, hard)
                return len(self.problems) >= 3 or self.spent > 30
            vm.covered = set()
            try:
                self.p.call(ref, a2, {} if ref_args is not None else kw, st=s2, sink=judged)
            except Unsupported as e:
                broken.append(e)
            vm.covered = covered
            return len(self.problems) >= 3 or self.spent > 30
        covered = vm.covered = set()
        try:
            self.p.call(func, args, kw, st=st, sink=checked)
        except Unsupported as e:                # a violation on a path that can be followed still counts
            broken.append(e)
        self.functions |= {c for c in covered if not c[0].startswith("<")}
        vm.covered = covered0
        if broken and not self.problems:
            raise broken[0]
        return returned

    def compare(self, leaf, out, r, rout, truthy, trace, exc_ok, hard):
        vm = self.vm
        if rout[0] == "ret" and isinstance(rout[1], str) and rout[1] == "*any*":
            return
        if rout[0] == "raise" and rout[1] in ("NameError", "UnboundLocalError"):
            raise Unsupported("the reference is broken: %r" % (r.result,))
        if out[0] != rout[0]:
            self.problem(leaf, r, out, rout, [], True, trace, hard)
            return
        if out[0] == "raise":
            if out[1] != rout[1] and not (exc_ok and exc_ok(out[1], rout[1])):
                self.problem(leaf, r, out, rout, [], True, trace, hard)
            return
        ok, diffs = compare_values(vm, r, out[1], rout[1], truthy)
        if not ok:
            self.problem(leaf, r, out, rout, [], True, trace, hard)
            return
        bad = [d for d in diffs if r.facts.equal(d, 0) is not True]
        if bad:
            self.problem(leaf, r, out, rout, bad, False, trace, hard)

    def problem(self, leaf, r, out, rout, diffs, skel, trace, hard):
        if r.facts.inconsistent():
            self.refuted += 1
            return
        t0 = time.time()
        w = find_witness(r.facts, diffs, skel, hard=hard)
        if w is None:
            self.spent += time.time() - t0
        if w == INFEASIBLE:
            self.refuted += 1
            return
        info = {"got": show_out(self.vm, leaf, out), "expected": show_out(self.vm, r, rout),
                "path": ["%s: %s %s 0" % (t[0], show(t[1]), t[2]) for t in trace][-12:]}
        if w is None:
            self.undecided += 1
            self.undecided_list.append(info)
            return
        info["witness"] = show_witness(w)
        env = dict(w)
        if "sym" in env:
            env["sym"] = sym_of(env["sym"])
        if not diffs and out[0] == rout[0] == "ret" and same_text(leaf, r, out[1], rout[1], env):
            self.undecided += 1
            self.undecided_list.append(info)
            return
        info["got_value"] = ev_value(self.vm, leaf, out, env)
        info["expected_value"] = ev_value(self.vm, r, rout, env)
        self.problems.append(info)


def show_out(vm, st, out):
    if out[0] == "raise":
        return "raises %s" % out[1]
    return show_val(vm, st, out[1])


def show_val(vm, st, v, d=0):
    if isinstance(v, Lin):
        return show(v)
    if isinstance(v, tuple):
        return "(" + ", ".join(show_val(vm, st, x, d + 1) for x in v) + ")"
    if isinstance(v, Ref) and d < 4:
        o = st.get(v)
        if o.kind == "list":
            return "[" + ", ".join(show_val(vm, st, x, d + 1) for x in o.items[:12]) + "]"
        if o.kind == "inst":
            return "<%s>" % (st.get(o.cls).name if isinstance(o.cls, Ref) else o.cls)
    return repr(v)


TEXT_OPS = {"upper", "lower", "title", "capitalize", "strip", "lstrip", "rstrip", "zfill", "rjust", "ljust", "center", "replace", "removeprefix",
            "removesuffix", "swapcase", "casefold", "expandtabs"}


def text_of(v, env):
    """The text a symbolic string is, under an assignment; NoValue when an operation on it is not one that can be worked out here."""
    def arg(x):
        if isinstance(x, Lin):
            return ev(x, dict(env))
        if isinstance(x, SStr):
            return text_of(x, env)
        if x is None or isinstance(x, (str, int, float, bytes)):
            return x
        if isinstance(x, tuple) and x[:1] == ("slice",) and len(x) == 4:
            return slice(*[arg(y) for y in x[1:]])
        raise NoValue(x)
    if isinstance(v, str):
        return v
    out = []
    for p in v.pieces:
        try:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == "chr":
                out.append(chr(arg(p[1])))
            elif p[0] == "fmt":
                out.append(format(arg(p[1]), p[2]))
            elif p[1] in TEXT_OPS:
                a = [arg(x) for x in p[2:]]
                out.append(getattr(a[0], p[1])(*a[1:]))
            elif p[1] == "item":
                out.append(arg(p[2])[arg(p[3])])
            elif p[1] == "format":
                out.append(format(arg(p[2]), p[3]))
            elif p[1] == "repr":
                out.append(repr(arg(p[2])))
            elif p[1] == "str" and len(p) == 3:
                out.append(str(arg(p[2])))
            else:
                raise NoValue(p)
        except (TypeError, ValueError, IndexError, AttributeError, OverflowError):
            raise NoValue(p)
    return "".join(out)


def same_text(s1, s2, x, y, env):
    """Can texts built differently be the same texts under the assignment? False only when something else, or a text, certainly differs."""
    unsure = [False]

    def go(x, y, d):
        if d > 8:
            return False
        if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
            if isinstance(x, str) and isinstance(y, str):
                return x == y
            try:
                return text_of(x, env) == text_of(y, env)
            except NoValue:
                unsure[0] = True
                return True
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(go(p, q, d + 1) for p, q in zip(x, y))
        if isinstance(x, Ref) and isinstance(y, Ref):
            a, b = s1.get(x), s2.get(y)
            if a.kind == b.kind == "list":
                return len(a.items) == len(b.items) and all(go(p, q, d + 1) for p, q in zip(a.items, b.items))
            return False
        if isinstance(x, (int, float, Lin)) and isinstance(y, (int, float, Lin)):
            try:
                return ev(lin(x), dict(env)) == ev(lin(y), dict(env))
            except NoValue:
                unsure[0] = True
                return True
        return x is None and y is None
    return go(x, y, 0)


def ev_value(vm, st, out, env):
    if out[0] == "raise":
        return "raises %s" % out[1]

    def go(v, d=0):
        if isinstance(v, Lin):
            try:
                x = ev(v, dict(env))
                return float(x) if isinstance(x, Fraction) and x.denominator != 1 else x
            except NoValue:
                return show(v)
        if isinstance(v, tuple):
            return tuple(go(x, d + 1) for x in v)
        if isinstance(v, Ref) and d < 4:
            o = st.get(v)
            if o.kind == "list":
                return [go(x, d + 1) for x in o.items]
        if isinstance(v, SStr):
            out_ = []
            for p in v.pieces:
                if isinstance(p, tuple) and p[0] in ("chr", "fmt"):
                    x = go(p[1])
                    if isinstance(x, int):
                        out_.append(chr(x) if p[0] == "chr" else format(x, p[2]))
                        continue
                out_.append(str(p))
            return "".join(out_)
        return v
    return repr(go(out[1]))
