# Sets of code points as canonical boundary lists, and call sequences on UnicodeSet.
# A boundary list e0 < e1 < ... (HIGH excluded) stands for [e0,e1) u [e2,e3) u ...,
# the last range extending to U+10FFFF when the number of boundaries is odd.

HIGH = 0x110000


def ranges_of(b):
    out = []
    i = 0
    while i < len(b):
        out.append((b[i], b[i + 1] if i + 1 < len(b) else HIGH))
        i += 2
    return out


def member(b, p):
    r = False
    for e in b:
        if p < e:
            break
        r = not r
    return r


def sweep(a, b, op):
    """Boundaries of { p : op(p in a, p in b) }."""
    out = []
    i = j = 0
    ina = inb = False
    cur = op(False, False)
    if cur:
        out.append(0)
    while i < len(a) or j < len(b):
        if j == len(b):
            x = a[i]
            i += 1
            ina = not ina
        elif i == len(a):
            x = b[j]
            j += 1
            inb = not inb
        elif a[i] < b[j]:
            x = a[i]
            i += 1
            ina = not ina
        elif b[j] < a[i]:
            x = b[j]
            j += 1
            inb = not inb
        else:
            x = a[i]
            i += 1
            j += 1
            ina = not ina
            inb = not inb
        new = op(ina, inb)
        if new != cur:
            if out and out[-1] == x:        # only possible at 0
                out.pop()
            else:
                out.append(x)
            cur = new
    return out


def OR(x, y):
    return x or y


def AND(x, y):
    return x and y


def SUB(x, y):
    return x and not y


def XOR(x, y):
    return x != y


def pin(c):
    if c < 0:
        return 0
    if c > 0x10FFFF:
        return 0x10FFFF
    return c


def interval(lo, hi):
    """Boundaries of the inclusive range lo..hi after pinning; [] when empty."""
    lo = pin(lo)
    hi = pin(hi)
    if lo > hi:
        return []
    if hi == 0x10FFFF:
        return [lo]
    return [lo, hi + 1]


# ---- references

def r_bulk(a, b, op):
    return ranges_of(sweep(a, b, op))


def r_or(a, b):
    return r_bulk(a, b, OR)


def r_and(a, b):
    return r_bulk(a, b, AND)


def r_sub(a, b):
    return r_bulk(a, b, SUB)


def r_xor(a, b):
    return r_bulk(a, b, XOR)


def r_add_range(a, s, e):
    return r_or(a, interval(s, e))


def r_remove_range(a, s, e):
    return r_sub(a, interval(s, e))


def r_retain_range(a, s, e):
    return r_and(a, interval(s, e))


def r_complement_range(a, s, e):
    return r_xor(a, interval(s, e))


def r_add(a, c):
    return r_or(a, interval(c, c))


def r_remove(a, c):
    return r_sub(a, interval(c, c))


def r_retain(a, c):
    return r_and(a, interval(c, c))


def r_complement(a, c):
    return r_xor(a, interval(c, c))


def r_complement_all(a):
    return r_xor(a, [0])


def r_empty(*args):
    return []


def r_contains(a, c):
    if c > 0x10FFFF:
        return False
    return member(a, c)


def r_contains_range(a, s, e):
    if s >= e or s < 0:
        return "*any*"
    for lo, hi in ranges_of(a):
        if lo <= s and e <= hi:
            return True
    return False


def r_size(a):
    n = 0
    for lo, hi in ranges_of(a):
        n += hi - lo
    return n


def r_count(a):
    return len(ranges_of(a))


def r_bounds(a):
    return [(lo, hi - 1) for lo, hi in ranges_of(a)]


def r_index_of(a, c):
    n = 0
    for lo, hi in ranges_of(a):
        if lo <= c < hi:
            return n + c - lo
        n += hi - lo
    return None


def r_char_at(a, k):
    if k < 0:
        return None
    for lo, hi in ranges_of(a):
        if k < hi - lo:
            return lo + k
        k -= hi - lo
    return None


def r_equal(a, b):
    if len(a) != len(b):
        return False
    for i in range(len(a)):
        if a[i] != b[i]:
            return False
    return True


def r_str(a):
    s = "["
    for e in a:
        s += "0x%04X, " % e
    return s + "0x110000]"


def r_members(a):
    out = []
    for lo, hi in ranges_of(a):
        for c in range(lo, hi):
            out.append(c)
    return out


# ---- call sequences (UnicodeSet and `build` are injected)

def observe(s):
    """The ranges; also checks that the set equals the canonical set of those ranges."""
    out = [(r.start, r.stop) for r in s.getRanges()]
    b = []
    for lo, hi in out:
        b.append(lo)
        if hi != HIGH:
            b.append(hi)
    if not (s == build(b)):
        return ("not equal to the set of its ranges", out)
    return out


def t_bulk(a, b, name):
    s = build(a)
    r = getattr(s, name)(build(b))
    return observe(r)


def t_bulk_self(a, b, name):
    """The receiver after an in-place operation."""
    s = build(a)
    getattr(s, name)(build(b))
    return observe(s)


def t_alias(a, name):
    s = build(a)
    return observe(getattr(s, name)(s))


def t_or(a, b):
    return observe(build(a) | build(b))


def t_and(a, b):
    return observe(build(a) & build(b))


def t_sub(a, b):
    return observe(build(a) - build(b))


def t_xor(a, b):
    return observe(build(a) ^ build(b))


def t_ior(a, b):
    s = build(a)
    s |= build(b)
    return observe(s)


def t_iand(a, b):
    s = build(a)
    s &= build(b)
    return observe(s)


def t_isub(a, b):
    s = build(a)
    s -= build(b)
    return observe(s)


def t_ixor(a, b):
    s = build(a)
    s ^= build(b)
    return observe(s)


def t_mutate(a, name, *args):
    s = build(a)
    getattr(s, name)(*args)
    return observe(s)


def t_complement_range(a, s, e):
    x = build(a)
    x.complement(range(s, e + 1))
    return observe(x)


def t_new():
    return observe(UnicodeSet())


def t_new_point(c):
    return observe(UnicodeSet(c))


def t_new_range(s, e):
    return observe(UnicodeSet(range(s, e)))


def r_new_range(s, e):
    return ranges_of(interval(s, e - 1))


def r_new_point(c):
    return ranges_of(interval(c, c))


def t_new_copy(a):
    return observe(UnicodeSet(build(a)))


def t_contains(a, c):
    return build(a).contains(c)


def t_in(a, c):
    return c in build(a)


def t_contains_range(a, s, e):
    return build(a).contains(range(s, e))


def t_in_range(a, s, e):
    return range(s, e) in build(a)


def t_call(a, name, *args):
    return getattr(build(a), name)(*args)


def t_bounds(a):
    s = build(a)
    return [(s.getRangeStart(i), s.getRangeEnd(i)) for i in range(s.getRangeCount())]


def t_equal(a, b):
    return build(a) == build(b)


def t_unequal(a, b):
    return build(a) != build(b)


def r_unequal(a, b):
    return not r_equal(a, b)


def t_str(a):
    return str(build(a))


def t_members(a):
    return [c for c in build(a)]


def t_returns_self(a, name, *args):
    s = build(a)
    return getattr(s, name)(*args) is s


def r_true(*args):
    return True


# operand isolation: what the operands are after the result was changed, and
# what the result is after the operands were changed

def t_isolated(a, b, name, c):
    x = build(a)
    y = build(b)
    r = getattr(x, name)(y)
    before = observe(r)
    r.add(c)
    r.complement()
    first = (observe(x), observe(y))
    r2 = getattr(x, name)(y)
    x.add(c)
    x.complement()
    y.add(c)
    y.complement()
    return (first[0], first[1], before, observe(r2))


def r_isolated(a, b, op):
    r = r_bulk(a, b, op)
    return (ranges_of(a), ranges_of(b), r, r)


def t_isolated_inplace(a, b, name, c):
    x = build(a)
    y = build(b)
    getattr(x, name)(y)
    r = observe(x)
    x.add(c)
    x.complement()
    first = observe(y)
    x = build(a)
    getattr(x, name)(y)
    y.add(c)
    y.complement()
    return (first, r, observe(x))


def r_isolated_inplace(a, b, op):
    r = r_bulk(a, b, op)
    return (ranges_of(b), r, r)


def t_isolated_copy(a, c):
    x = build(a)
    y = UnicodeSet(x)
    y.add(c)
    y.complement()
    first = observe(x)
    z = UnicodeSet(x)
    x.add(c)
    x.complement()
    g = x.getRanges()
    n = len(g)
    g.append(range(0, 5))
    return (first, observe(z), len(x.getRanges()) == n)


def r_isolated_copy(a, c):
    return (ranges_of(a), ranges_of(a), True)


def observe_built(a):
    return observe(build(a))


def t_roundtrip(a, k):
    x = build(a)
    c = x.charAt(k)
    if c is None:
        return None
    return x.indexOf(c)


def r_roundtrip(a, k):
    if r_char_at(a, k) is None:
        return None
    return k


def r_alias(a, op):
    return r_bulk(a, a, op)


def t_bulk_returns_self(a, b, name):
    s = build(a)
    return getattr(s, name)(build(b)) is s


def t_ior_identity(a, b):
    s = t = build(a)
    s |= build(b)
    return s is t


def t_iand_identity(a, b):
    s = t = build(a)
    s &= build(b)
    return s is t


def t_isub_identity(a, b):
    s = t = build(a)
    s -= build(b)
    return s is t


def t_ixor_identity(a, b):
    s = t = build(a)
    s ^= build(b)
    return s is t


# ---- answers after a change, when the same was asked before it

BULK_NAMES = ("addAll", "retainAll", "removeAll", "complementAll")


def ask(s, query, q):
    if query == "contains":
        return (bool(s.contains(q)), q in s)
    if query == "size":
        return s.size()
    if query == "bounds":
        return [(s.getRangeStart(i), s.getRangeEnd(i)) for i in range(s.getRangeCount())]
    if query == "ranges":
        return [(r.start, r.stop) for r in s.getRanges()]
    if query == "indexOf":
        return s.indexOf(q)
    if query == "charAt":
        return s.charAt(q)
    if query == "str":
        return str(s)
    if query == "first":
        for c in s:
            return c
        return None
    if query == "equal":
        return (s == build(q), s != build(q))


def change(s, name, args):
    if name in BULK_NAMES:
        getattr(s, name)(build(args[0]))
    elif name == "complement(range)":
        s.complement(range(args[0], args[1] + 1))
    else:
        getattr(s, name)(*args)


def t_after(a, name, args, query, q):
    s = build(a)
    ask(s, query, q)
    change(s, name, args)
    x = ask(s, query, q)
    return (x, ask(s, query, q))


def flat_of(ranges):
    b = []
    for lo, hi in ranges:
        b.append(lo)
        if hi != HIGH:
            b.append(hi)
    return b


def r_ask(b, query, q):
    if query == "contains":
        x = r_contains(b, q)
        return (x, x)
    if query == "size":
        return r_size(b)
    if query == "bounds":
        return r_bounds(b)
    if query == "ranges":
        return ranges_of(b)
    if query == "indexOf":
        return r_index_of(b, q)
    if query == "charAt":
        return r_char_at(b, q)
    if query == "str":
        return r_str(b)
    if query == "first":
        return b[0] if b else None
    if query == "equal":
        return (r_equal(b, q), not r_equal(b, q))


def r_after(a, ref, args, query, q):
    x = r_ask(flat_of(ref(a, *args)), query, q)
    return (x, x)


def r_bulk_or(a, b):
    return r_bulk(a, b, OR)


def r_bulk_and(a, b):
    return r_bulk(a, b, AND)


def r_bulk_sub(a, b):
    return r_bulk(a, b, SUB)


def r_bulk_xor(a, b):
    return r_bulk(a, b, XOR)


# ---- many ranges

def t_changed(a, j, x):
    """A set against the set with boundary j at x instead."""
    b = a[:j] + [x] + a[j + 1:]
    return (build(a) == build(b), build(a) != build(b))


def r_changed(a, j, x):
    return (a[j] == x, a[j] != x)


# ---- lists of ranges handed out

def t_handed_out(a, b):
    s = build(a)
    t = build(b)
    x = s.getRanges()
    y = t.getRanges()
    z = s.getRanges()
    first = ([(r.start, r.stop) for r in x], [(r.start, r.stop) for r in y])
    x.append(range(0, 5))
    z.clear()
    return first + ([(r.start, r.stop) for r in s.getRanges()], [(r.start, r.stop) for r in t.getRanges()])


def r_handed_out(a, b):
    return (ranges_of(a), ranges_of(b), ranges_of(a), ranges_of(b))


def r_empty_of(a):
    return []
