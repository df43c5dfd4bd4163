"""T02, T04: enumeration of a trie's ranges.

A well-formed trie is laid out by an encoder written here from the format
definition: every block of code points is assigned a kind (uniform value, two
values, the null block ...), equal kinds share one block, the values themselves
are unknown numbers.  The enumerator is interpreted over that layout and its
ranges compared with the maximal runs of the assignment."""
import itertools
from . import check
from .common import *
from .tries import drivers

# kinds of blocks: what values they hold, in which parts
SPLIT = {"A": (("a", 1),), "B": (("b", 1),), "M": (("a", .5), ("b", .5)), "W": (("b", .5), ("a", .5)), "N": (("n", 1),),
         "E": (("a", 1),), "P": (("poison", 1),), "H": (("h", 1),),
         "S": (("a", 0), ("b", 1)), "L": (("a", 1), ("b", 0))}       # 0: a single code point, 1: the rest
VALUES = {k: var("v_" + k, 0, 0xFFFF) for k in ("a", "b", "n", "h", "poison", "error")}


def parts(kind, size):
    ps = SPLIT[kind]
    ones = sum(1 for _, p in ps if not p)
    return [(VALUES[v], int(size * p) if 0 < p < 1 else size - ones if p else 1) for v, p in ps]


def contents(kind, size):
    out = []
    for v, n in parts(kind, size):
        out += [v] * n
    return out


def stretches(blocks, high_start):
    """blocks: [(start, end, kind)] in order -> [(start, end, value)]"""
    out = []
    for s, e, k in blocks:
        at = s
        for v, n in parts(k, e - s):
            out.append((at, at + n, v))
            at += n
    top = min(high_start, 0x110000)
    out = [(s, min(e, top), v) for s, e, v in out if s < top]
    out.append((top, 0x110000, VALUES["h"]))
    return out


# ------------------------------------------------------------------ UTrie2
def utrie2(kind_of, high_start, null_index2=True, supplementary=()):
    """kind_of: {block number (c >> 5): kind}; other blocks hold the initial value."""
    if high_start < 0x10000:
        kind_of = {**{b: "H" for b in range(high_start >> 5, 0x800)}, **{b: k for b, k in kind_of.items() if b << 5 < high_start}}
    i1len = max(0, (high_start - 0x10000) >> 11)
    n0 = 0x840 + i1len
    i2, where = [], {}
    for i in range(i1len):
        b = (0x10000 >> 5) + i * 64
        t = tuple(kind_of.get(b + j, "N") for j in range(64))
        if t not in where:
            where[t] = n0 + 64 * len(i2)
            i2.append(t)
    null2 = where.get(("N",) * 64, 0xFFFF) if null_index2 else 0xFFFF
    length = n0 + 64 * len(i2)
    length += -length % 4
    data, at = [], {}

    def place(kind):
        if kind not in at:
            at[kind] = length + len(data)
            data.extend(contents(kind, 32))
        return at[kind] >> 2
    place("P")
    place("N")
    index = [place("P" if 0xD800 <= b << 5 < 0xDC00 else kind_of.get(b, "N")) for b in range(0x800)]
    index += [place(kind_of.get((0xD800 >> 5) + j, "N")) for j in range(32)]
    index += [0xFFFF] * 32
    index += [where[tuple(kind_of.get((0x10000 >> 5) + i * 64 + j, "N") for j in range(64))] for i in range(i1len)]
    for t in i2:
        index += [place(k) for k in t]
    index += [0] * (length - len(index))
    high = length + len(data)
    data += [VALUES["h"]] * 4
    index += data
    return index, (length, null2, at["N"], high_start, high, VALUES["n"])


def utrie2_blocks(kind_of, high_start):
    out = []
    run = None
    for b in range(0, 0x110000 >> 5):
        k = kind_of.get(b, "N")
        if k in ("A", "B", "N") and run and run[2] == k:
            run[1] = (b + 1) << 5
        else:
            run = [b << 5, (b + 1) << 5, k]
            out.append(run)
        if (b + 1) << 5 >= max(high_start, 0x10000):
            break
    return [tuple(x) for x in out]


# places: (first code point of the pattern, code points per pattern letter, windows relative to the first)
def utrie2_cases(thorough):
    """(name, kind_of, high start, null index-2 block?, [(start, limit)])"""
    letters = "NABM" if not thorough else "NABMW"
    n = 3 if not thorough else 4
    pats = ["".join(p) for p in itertools.product(letters, repeat=n)]

    def lay(pat, first, step):
        d = {}
        for i, k in enumerate(pat):
            for b in range((first + i * step) >> 5, (first + (i + 1) * step) >> 5):
                d[b] = k
        return d
    for first, hs in ((0, 0x11000), (0x40, 0x10000), (0x7E0, 0x11000), (0xD7C0, 0x11000), (0xDBC0, 0x11000), (0xFFC0, 0x11000), (0x10000, 0x11000), (0x107E0, 0x11800)):
        for p in pats:
            w = [(first, first + 32 * n), (first + 16, first + 32 * n + 8)]
            if p[-1] == "M" and p[-2] in "MA":
                w.append((first + 3, first + 32 * n - 19))
            if thorough:
                w += [(first + 5, first + 32 * n - 27), (first + 17, first + 33), (max(0, first - 40), first + 32 * n + 40)]
            yield "%s at %X" % (p, first), lay(p, first, 32), hs, True, w
    # blocks whose first or last code point differs from the rest
    for first, hs in ((0x40, 0x10000), (0x7E0, 0x11000), (0xD7C0, 0x11000), (0x10000, 0x11000), (0x107E0, 0x11800)):
        for p in ("".join(q) for q in itertools.product("SLAN", repeat=3)):
            if "S" in p or "L" in p:
                yield "%s at %X" % (p, first), lay(p, first, 32), hs, True, [(first, first + 96), (first + 1, first + 95)][:2 if thorough else 1]
    # high-value ranges that start in the BMP
    for hs in (0, 0x800, 0x9000, 0xD800, 0xE000, 0xF800):
        for p in ("".join(q) for q in itertools.product("NA", repeat=3)):
            if hs or p == "NNN":
                yield "%s below %X" % (p, hs), lay(p, hs - 96, 32) if hs else {}, hs, True, [(max(0, hs - 96), hs + 40), (max(0, hs - 32), 0x110000), (hs, hs + 5), (hs + 0x100, 0x10100)]
    # whole index-2 blocks
    for p in ("".join(q) for q in itertools.product("NABM", repeat=3)):
        d = lay(p, 0x10000, 0x800)
        yield "%s blocks of 0x800 at 10000" % p, d, 0x11800, True, [(0x10000, 0x11800), (0x10210, 0x11A00)]
        if thorough:
            yield "%s blocks of 0x800 at 10000, no null block" % p, d, 0x11800, False, [(0x10000, 0x12000), (0xFFFF, 0x110000)]
    # index-2 blocks that differ in one data block only
    one = (("N", "N"), ("N", "A"), ("A", "N"), ("A", "M")) + ((("N", "M"), ("M", "N"), ("W", "W")) if thorough else ())
    for q in itertools.product("SLA", repeat=3):
        d = {0x800 + 64 * i + b: {"S": "S" if not b else "B", "L": "L" if b == 63 else "A", "A": "A"}[k] for i, k in enumerate(q) for b in range(64)}
        yield "%s blocks of 0x800 at 10000" % "".join(q), d, 0x11800, True, [(0x10000, 0x11800)]
    for q in itertools.product(range(len(one)), repeat=3 if not thorough else 4):
        for at in ((0,), (63,)) if not thorough else ((0,), (63,), (1,), (31, 32)):
            d = {}
            for i, k in enumerate(q):
                for b in range(64):
                    d[0x800 + 64 * i + b] = one[k][b in at]
            top = 0x10000 + 0x800 * len(q)
            yield "%s in block %s of 0x800 at 10000" % (" ".join("%s%s" % one[k] for k in q), at), d, top, True, [(0x10000, top)] + ([(0x10020, top - 7)] if sum(q) % 5 == 0 else [])
    # around the high start
    for p in pats:
        first = 0x11800 - 32 * n
        yield "%s below the high start" % p, lay(p, first, 32), 0x11800, True, [(first, 0x11900), (first + 17, 0x110000)]
    yield "ranges beyond the high start", {}, 0x11000, True, [(0x11000, 0x110000), (0x12345, 0x12346), (0x10F00, 0x11000), (0x10FFFF, 0x110000), (5, 5), (9, 3), (0x110000, 0x110000)]
    yield "defaults", {0: "A", 0x7FF: "B", 0x810: "A"}, 0x11000, True, []
    yield "defaults", {0: "N", 0x800: "B", 0x87F: "N"}, 0x11000, True, []


@check("T02")
def t02(ctx):
    ctx.project.vm.loop_cap = 20000
    drivers(ctx)
    ctx.spec("ranges")
    cases = list(utrie2_cases(ctx.thorough))
    ctx.count("tries", len(cases))
    chunks = [cases[i::64] for i in range(64)]
    ctx.fan([c for c in chunks if c], lambda s, part: [utrie2_case(s, *x) for x in part])
    return {"explanation": "UTrie2.enumerator over tries laid out by an independent encoder: every assignment of block kinds (null, uniform, two-valued) to the "
                           "blocks around each boundary of the format (start, index-2 block, surrogates, BMP end, null index-2 block, high start), with unknown values, for "
                           "windows aligned and not aligned to blocks, compared with the maximal runs of the assignment."}


def utrie2_case(ctx, name, kind_of, hs, null2, windows):
    d, spec = drivers(ctx), ctx.spec("ranges")
    index, rest = utrie2(kind_of, hs, null2)
    st = stretches(utrie2_blocks(kind_of, hs), hs)

    def go(drv, ref, window, *extra):
        def args(vm, s):
            return tuple(window) + tuple(extra) + (s.alloc(ListO(list(index))),) + rest, {}

        def ref_args(vm, s, a):
            near = tuple(x for x in st if x[1] > window[0] and x[0] < window[1])
            return tuple(window) + tuple(extra) + (near,)
        ctx.equiv("%s [%X, %X) %s" % (drv, window[0], window[1], name), d(drv), spec(ref), args, ref_args=ref_args,
                  where="UnicodeData/Utrie2.py:UTrie2.enumerator")
    for w in windows:
        go("utrie2_ranges", "merged", w)
    if name == "defaults":
        ctx.equiv("enumerator() with default limits", d("utrie2_ranges_default"), spec("merged"),
                  lambda vm, s: ((s.alloc(ListO(list(index))),) + rest, {}), ref_args=lambda vm, s, a: (0, 0x110000, tuple(st)),
                  where="UnicodeData/Utrie2.py:UTrie2.enumerator")
    if windows:
        go("utrie2_ranges_bit", "merged_bit", windows[-1], 3)


# ------------------------------------------------------------------ UCPTrie
def cptrie(kind_of, high_start, fast, bits18=False, null3=True, null=True, overlap=True, planes=False):
    """kind_of(c, size): kind of the block of `size` code points at c."""
    fast_limit = 0x10000 if fast else 0x1000
    data, at = [], {}

    def place(kind, size):
        key = (kind, size)
        # a small block may be the beginning of a larger block with the same contents
        want = contents(kind, size)
        if key not in at:
            if overlap and size == 16:
                for (k, n), o in list(at.items()) if not planes else ():
                    if n == 64 and data[o:o + 16] == want and k != "E":
                        at[key] = o
                        return o
            if bits18 and size == 16 and len(data) < 0x10000:
                data.extend([VALUES["poison"]] * (0x10000 - len(data)))
            if planes and size == 16 and kind != "P":
                top = 0x10000 * (1 + len(data) // 0x10000)
                if top < 0x40000:
                    data.extend([VALUES["poison"]] * (top - len(data)))
            at[key] = len(data)
            data.extend(want)
        return at[key]
    linear = [kind_of(c, 64) for c in range(0, fast_limit, 64)]
    for k in linear[:2]:                # ASCII is addressed linearly from 0
        data.extend(contents(k, 64))
    data.extend([VALUES["poison"]] * 64)
    if null:
        place("N", 64)
        at[("N", 16)] = at[("N", 64)]
    index = [0, 64]
    for k in linear[2:]:
        index.append(place(k, 64))
    first1 = 4 if fast else 0
    n1 = max(0, -(-high_start // 0x4000) - first1) if high_start > fast_limit else 0
    i1_at = len(index)
    index += [0] * n1
    threes, twos = {}, {}

    def index3(kinds):
        if kinds in threes:
            return threes[kinds]
        blocks = [place(k, 16) for k in kinds]
        if bits18:
            o = len(index) | 0x8000
            for g in range(0, 32, 8):
                hi = 0
                for j in range(8):
                    hi |= (blocks[g + j] >> 16) << (14 - 2 * j)
                index.append(hi)
                index.extend(b & 0xFFFF for b in blocks[g:g + 8])
        else:
            o = len(index)
            index.extend(blocks)
        threes[kinds] = o
        return o
    none3 = 0x7FFF
    for i in range(n1):
        base = (first1 + i) * 0x4000
        block2 = []
        for j in range(32):
            c = base + j * 512
            ks = tuple(kind_of(c + k * 16, 16) for k in range(32)) if c < high_start else ("P",) * 32
            block2.append(index3(ks))
        key = tuple(block2)
        if key not in twos:
            twos[key] = len(index)
            index.extend(block2)
        index[i1_at + i] = twos[key]
    null3_offset = threes.get(("N",) * 32, none3) if null3 and null else none3
    data += [VALUES["h"], VALUES["error"]]
    return index, data, (null3_offset, at[("N", 64)] if null else 0xFFFFF, high_start, (high_start + 0xFFF) >> 12)


def cptrie_blocks(kind_of, high_start, fast):
    out = []
    c, run = 0, None
    while c < high_start:
        size = 64 if c < (0x10000 if fast else 0x1000) else 16
        k = kind_of(c, size)
        if run and run[2] == k and k in "NAB":
            run[1] = c + size
        else:
            run = [c, c + size, k]
            out.append(run)
        c += size
    return [tuple(x) for x in out]


def cptrie_cases(thorough):
    """(name, {start: (size, kind)}, high start, fast?, options, [(start, limit)])"""
    n = 3 if not thorough else 4
    letters = "NABM" if not thorough else "NABMW"
    pats = ["".join(p) for p in itertools.product(letters, repeat=n)]

    def windows(first, size, k):
        w = [(first, first + size * k), (first + size // 2, first + size * k + size // 2)]
        if p[-1] == "M" and p[-2] in "MA":
            w.append((first + 3, first + size * k - size // 2 - 3))         # ends before the change inside the last block
        if thorough:
            w += [(first + 3, first + size * k - size + 1), (first + size // 2 + 1, first + size + 1), (max(0, first - size - 5), first + size * k + size + 9)]
        return w
    variants = [{}, {"bits18": True}, {"null": False}, {"null3": False}] + ([{"bits18": True, "null": False}, {"overlap": False}] if thorough else [])
    for fast, hs, firsts in ((True, 0x10800, (0, 0x7C0, 0xFF40)), (False, 0x2000, (0, 0x7C0, 0xF40))):
        for first in firsts:
            for p in pats:
                yield "%s at %X" % (p, first), [(first + i * 64, 64, k) for i, k in enumerate(p)], hs, fast, {}, windows(first, 64, n)
    for fast, hs, firsts in ((True, 0x10800, (0x10010, 0x101F0, 0x10210)), (False, 0x2000, (0x1010, 0x11F0))):
        for first in firsts:
            for o in variants:
                for p in pats:
                    yield "%s at %X %s" % (p, first, o or ""), [(first + i * 16, 16, k) for i, k in enumerate(p)], hs, fast, o, windows(first, 16, n)
    # blocks whose first or last code point differs from the rest
    for fast, hs, first, size in ((True, 0x10800, 0x7C0, 64), (False, 0x2000, 0x40, 64), (True, 0x10800, 0x10010, 16), (True, 0x10800, 0x101F0, 16), (False, 0x2000, 0x11F0, 16)):
        for o in ({},) if size == 64 else ({}, {"bits18": True}):
            for p in ("".join(q) for q in itertools.product("SLAN", repeat=3)):
                if "S" in p or "L" in p:
                    yield "%s at %X %s" % (p, first, o or ""), [(first + i * size, size, k) for i, k in enumerate(p)], hs, fast, o, \
                        [(first, first + size * 3), (first + 1, first + size * 3 - 1)][:2 if thorough else 1]
    for fast, first in ((True, 0x10000), (False, 0x1000)):
        for q in itertools.product("SLA", repeat=3):
            place = []
            for i, k in enumerate(q):
                c = first + 512 * i
                place += {"S": [(c, 16, "S"), (c, 512, "B")], "L": [(c + 496, 16, "L"), (c, 512, "A")], "A": [(c, 512, "A")]}[k]
            yield "%s blocks of 0x200 at %X" % ("".join(q), first), place, first + 512 * 3, fast, {}, [(first, first + 512 * 3)]
    # from the linear part into the multi-stage part
    for fast, hs, first in ((True, 0x10400, 0x10000), (False, 0x1400, 0x1000)):
        for o in variants[:2]:
            for p in itertools.product("NABM", repeat=4):
                p = "".join(p)
                yield "%s across %X %s" % (p, first, o or ""), [(first - 128, 64, p[0]), (first - 64, 64, p[1]), (first, 16, p[2]), (first + 16, 16, p[3])], hs, fast, o, \
                    [(first - 64, first + 32)] + ([(first - 100, first + 25), (first - 128, first + 600)] if thorough else [])
    # index-3 blocks that differ in one data block only
    one = (("N", "N"), ("N", "A"), ("A", "N"), ("A", "M")) + ((("N", "M"), ("M", "N")) if thorough else ())
    for fast, first in ((True, 0x10000), (False, 0x1000)):
        for q in itertools.product(range(len(one)), repeat=3 if not thorough else 4):
            for at in (0, 31) if not thorough else (0, 1, 16, 31):
                place = []
                for i, k in enumerate(q):
                    c = first + 512 * i
                    place += [(c + 16 * at, 16, one[k][1]), (c, 512, one[k][0])]
                hs = first + 512 * len(q)
                o = {"bits18": True} if sum(q) % 3 == 0 else {}
                yield "%s in block %d of 0x200 at %X %s" % (" ".join("%s%s" % one[k] for k in q), at, first, o or ""), place, hs, fast, o, \
                    [(first, hs)] + ([(first + 16, hs + 5)] if sum(q) % 4 == 0 else [])
    # data blocks in every plane of an 18-bit index, at every place of a group
    for fast, first in ((True, 0x10000), (False, 0x1000)):
        for r in range(4):
            yield "planes %d at %X" % (r, first), [(first + 16 * i, 16, "ABMW"[(i + i // 8 + r) % 4]) for i in range(32)], first + 512, fast, {"bits18": True, "planes": True}, \
                [(first, first + 512)]
    # whole index-3 blocks, with the high start after them
    for fast, first in ((True, 0x10000), (False, 0x1000), (False, 0x3C00)):
        for o in variants[:4]:
            for p in itertools.product("NAM", repeat=3) if not thorough else itertools.product("NABM", repeat=4):
                p = "".join(p)
                hs = first + 512 * len(p)
                yield "%s blocks of 0x200 at %X %s" % (p, first, o or ""), [(first + i * 512, 512, k) for i, k in enumerate(p)], hs, fast, o, \
                    [(first, hs), (first + 0x108, hs + 0x300)] + ([(first + 0x1F8, hs - 0x1F8), (0, 0x110000)] if thorough else [])
    for fast, hs in ((True, 0x10000), (True, 0x10200), (False, 0x1000), (False, 0x4000)):
        yield "beyond the high start", [], hs, fast, {}, [(hs, 0x110000), (hs - 7, hs + 1), (hs + 5, hs + 9), (0x10FFFF, 0x110000), (7, 7), (9, 2), (0x110000, 0x110000)]
    yield "defaults", [(0, 64, "A"), (0x1000, 64, "B"), (0x10000, 16, "M")], 0x10400, True, {}, []
    yield "defaults", [(0, 64, "N"), (0xFC0, 64, "B"), (0x1000, 16, "M")], 0x1400, False, {}, []


def cptrie_case(ctx, name, places, hs, fast, options, windows):
    d, spec = drivers(ctx), ctx.spec("ranges")
    rest = "N" if options.get("null", True) else "A"

    def kind_of(c, size):
        for a, n, k in places:
            if a <= c < a + n:
                return k
        return rest
    index, data, head = cptrie(kind_of, hs, fast, **options)
    st = stretches(cptrie_blocks(kind_of, hs, fast), hs)
    head = (0 if fast else 1, 0) + head
    kind = "fast" if fast else "small"

    def args(vm, s, pre=()):
        return tuple(pre) + (tuple(index), tuple(data)) + head, {}
    for w in windows:
        near = tuple(x for x in st if x[1] > w[0] and x[0] < w[1])
        ctx.equiv("%s [%X, %X) %s" % (kind, w[0], w[1], name), d("cptrie_ranges"), spec("merged"), lambda vm, s: args(vm, s, w),
                  ref_args=lambda vm, s, a: (w[0], w[1], near), where="UnicodeData/CPTrie.py:CPTrie.enumerator")
    if name == "defaults":
        ctx.equiv("enumerator() with default limits, %s" % kind, d("cptrie_ranges_default"), spec("merged"), args,
                  ref_args=lambda vm, s, a: (0, 0x110000, tuple(st)), where="UnicodeData/CPTrie.py:CPTrie.enumerator")


@check("T04")
def t04(ctx):
    ctx.project.vm.loop_cap = 20000
    drivers(ctx)
    ctx.spec("ranges")
    cases = list(cptrie_cases(ctx.thorough))
    ctx.count("tries", len(cases))
    ctx.fan([c for c in (cases[i::64] for i in range(64)) if c], lambda s, part: [cptrie_case(s, *x) for x in part])
    return {"explanation": "CPTrie.enumerator over tries of both types laid out by an independent encoder (shared and overlapping blocks, 16- and 18-bit index-3 "
                           "blocks, with and without null blocks), every assignment of block kinds around each boundary of the format, unknown values, windows aligned "
                           "and not aligned to blocks, compared with the maximal runs of the assignment."}
