"""D01, D02, N04: what is read from the ICU data file."""
from . import check
from .common import *
from sa.natives import SymArray, open_files
from sa.vm import BuiltinV

DATA = "Data/icudata.dat"


class File(object):
    """A data file whose structural bytes are known and whose other bytes are not."""

    def __init__(self, entries, header=24, prefix="icudt67l", gap=0, size=None, reverse=False):
        """entries: [(name, known data offset or None)]"""
        self.known = {}
        self.table = SymTable("file", 0, 255, self.known)
        self.size = var("fileLength", 1 << 17, 1 << 26) if size is None else size
        self.facts = Facts()
        self.header = header
        self.put(0, header, 2)
        self.put(header, len(entries), 4)
        at = 4 + 8 * len(entries) + gap
        self.offset = {}
        self.names = [n for n, _ in entries]
        order = list(range(len(entries)))
        for i in (reversed(order) if reverse else order):
            name, off = entries[i]
            self.put(header + 4 + 8 * i, at, 4)
            if off is not None:
                self.put(header + 8 + 8 * i, off - header, 4)
            s = "%s/%s" % (prefix, name)
            for k, ch in enumerate(s + "\0"):
                self.known[header + at + k] = ord(ch)
            at += len(s) + 1 + gap
            self.offset[name] = add(lin(header), self.u32(header + 8 + 8 * i))
            if off is None:
                self.assume(sub(sub(self.size, self.offset[name]), 24), ">=")
        self.end = header + at
        for k in range(200):        # what follows the names
            self.known.setdefault(self.end + k, 0 if k % 4 else 7)

    def put(self, at, value, size):
        for k in range(size):
            self.known[at + k] = value >> 8 * k & 255

    def in_file(self, at):
        self.assume(sub(self.size, at), ">=")

    def byte(self, at):
        return read(self.table, lin(at))

    def u16(self, at):
        return B.scalar(self.table, at, 2, True, False)

    def u32(self, at):
        return B.scalar(self.table, at, 4, True, False)

    def assume(self, x, rel):
        f = self.facts.assume(lin(x), rel)
        assert f is not None, "contradictory file"
        self.facts = f

    def project(self, ctx, modules=()):
        return ctx.with_files(list(modules), {DATA: FrozenV("bytes", (self.table, 0, self.size))})

    def raw(self, st):
        return st.alloc(NativeO(SymArray(), {"table": self.table, "len": lin(self.size), "off": lin(0)}))


def spec(w, name, inject=None):
    d = {"open_files": BuiltinV("open_files", open_files)}
    d.update(inject or {})
    return w.spec(name, d)


NAMES = ("a.icu", "nfkc.nrm", "ulayout.icu", "unames.icu", "translit/el.res", "zh_Hant.res")


def layouts(thorough):
    yield 24, ("ulayout.icu",), {}
    yield 32, ("unames.icu", "ulayout.icu"), {}
    yield 144, ("nfkc.nrm", "ulayout.icu", "unames.icu"), {"gap": 3}
    yield 300, NAMES, {"prefix": "icudt67b"}
    yield 64, NAMES[2:5], {"reverse": True, "prefix": "i"}
    if thorough:
        for h in (24, 25, 48, 255, 256, 257, 4096, 65532):
            for n in range(1, 7):
                yield h, NAMES[:n], {"gap": n}
        yield 80, tuple("n%03d.icu" % i for i in range(300)), {}


@check("D01")
def d01(ctx):
    where = "UnicodeData/ICUDataFile.py:ICUData"
    for h, names, kw in layouts(ctx.thorough):
        f = File([(n, None) for n in names], header=h, **kw)
        w = f.project(ctx)
        s = spec(w, "icudata")
        for order in (range(len(names)), range(len(names) - 1, -1, -1)):
            for drv in ("given_offsets", "given_offsets_twice"):
                w.equiv("offsets of %s (header of %d bytes, %s)" % (", ".join(names[:8]), h, drv), s(drv), s("offsets"),
                          fixed(tuple(names[i] for i in order)), ref_args=lambda vm, st, a: (f.raw(st), tuple(order)), where=where)
        for i, n in enumerate(names[:8]):
            w.equiv("header of %s (of %d, header of %d bytes)" % (n, len(names), h), s("given_header"), s("item_header"), fixed(n),
                      ref_args=lambda vm, st, a: (f.raw(st), i), facts=f.facts, where=where + ".getDataOffsetAndHeader")
    f = File([("ulayout.icu", None)])
    a, b, i = var("start", 0, 1 << 26), var("limit", 0, 1 << 26), var("i", 0, 1 << 26)
    f.assume(sub(f.size, b), ">=")
    f.assume(sub(sub(b, a), add(i, 1)), ">=")
    w = f.project(ctx)
    s = spec(w, "icudata")
    w.equiv("getData", s("given_bytes"), s("some_bytes"), fixed(a, b, i), ref_args=lambda vm, st, x: (f.raw(st),) + x[0:3], facts=f.facts,
              where=where + ".getData")
    x = var("other", 0, 1 << 26)
    f.assume(sub(f.size, x), ">=")
    for n, asked in (("a longer one", ((a, lin(f.size)),)), ("an empty one", ((a, a), (b, b))), ("another end", ((a, x), (x, b))), ("another start", ((x, lin(f.size)), (lin(0), b)))):
        w.equiv("getData after " + n, s("given_bytes_again"), s("some_bytes"), fixed(a, b, i, asked), ref_args=lambda vm, st, x: (f.raw(st),) + x[0:3], facts=f.facts,
                  where=where + ".getData")
    at = var("offset", 4096, 1 << 20)
    for n in range(9 if ctx.thorough else 5):
        f = File([("ulayout.icu", None)], size=var("fileLength", 1 << 21, 1 << 26))
        for k in range(n):
            f.assume(f.byte(add(at, k)), "!=")
        f.assume(f.byte(add(at, n)), "==")
        w = f.project(ctx)
        s = spec(w, "icudata")
        w.equiv("getString of %d characters" % n, s("given_text"), s("text"), fixed(at), ref_args=lambda vm, st, x: (f.raw(st), x[0], n),
                  facts=f.facts, where=where + ".getString")
    return {"explanation": "ICUData is loaded from a file whose table of contents has known names at known places and whose other bytes are unknown: "
                           "every data offset, every item header field, every slice and string is compared with the format's definition, and no file "
                           "may still be open afterwards."}


def serialized_trie(f, start, limit, width, kind):
    """The bytes from start on hold a code point trie of the given form, and it ends before limit."""
    opt = f.u16(add(start, 4))
    f.assume(sub(mod(opt, 8), width), "==")
    f.assume(sub(mod(div(opt, 64), 4), kind), "==")
    size = {0: 2, 1: 4, 2: 1}[width]
    n = add(scale(div(opt, 4096), 65536), f.u16(add(start, 8)))
    f.assume(sub(limit, add(add(start, 16), add(scale(f.u16(add(start, 6)), 2), scale(n, size)))), ">=")


def known_trie(f, at, kind, width, n_index, n_data, high_start):
    """The same with a known header; returns where the trie ends."""
    f.put(at, 0x54726933, 4)
    f.put(at + 4, (n_data >> 16) << 12 | kind << 6 | width, 2)
    f.put(at + 6, n_index, 2)
    f.put(at + 8, n_data & 0xFFFF, 2)
    f.put(at + 10, 7, 2)
    f.put(at + 12, 9, 2)
    f.put(at + 14, high_start >> 9, 2)
    return at + 16 + 2 * n_index + n_data * {0: 2, 1: 4, 2: 1}[width]


FORMS = [(k, w) for k in (0, 1) for w in (0, 2, 1)]


@check("D02")
def d02(ctx):
    c = var("c", 0, 0x7FFFFFFF)

    def one(ctx, item):
        kind, width, count, i = item
        f = File([("unames.icu", None), ("ulayout.icu", 8192 if count else None)])
        start = f.offset["ulayout.icu"]
        if count:
            # everything but what the tries hold is known
            f.put(8192, 32, 2)
            f.put(8192 + 32, count, 4)
            at = 8192 + 32 + 4 * count
            for k in range(3):
                at = known_trie(f, at, kind, width, (1100 if kind == 0 else 90) + 2 * k, 70000 * (k == 1) + 500 + 4 * k, 0x20000 + 0x4000 * k) + 4 * (k % 2)
                f.put(8192 + 32 + 4 * (k + 1), at - 8192 - 32, 4)
            for k in range(4, count):
                f.put(8192 + 32 + 4 * k, at - 8192 - 32 + 16 * (k - 3), 4)
            f.in_file(lin(at + 4096))
        else:
            base = add(start, f.u16(start))
            f.in_file(add(start, 24))
            n = f.u32(base)
            f.assume(sub(n, 8), ">=")
            f.assume(sub(4096, n), ">=")
            tops = [add(base, scale(n, 4))] + [add(base, f.u32(add(base, 4 * i))) for i in (1, 2, 3)]
            f.in_file(tops[3])
            for a, b in zip(tops, tops[1:]):
                f.assume(sub(b, a), ">=")
                serialized_trie(f, a, b, width, kind)
        w = f.project(ctx, ["UnicodeData.CPTrie"])
        t = w.spec("cptrie")
        s = spec(w, "layout", {n: t(n) for n in ("u16", "u32", "from_bytes", "From")})
        n = ("getInPC", "getInSC", "getVO")[i]
        w.equiv("%s (%s tries, width %d%s)" % (n, ("fast", "small")[kind], width, ", %d indexes" % count if count else ""), s("given_%d" % i),
                s("value"), fixed(c), ref_args=lambda vm, st, a: (f.raw(st), start, i, width, c), facts=f.facts,
                where="UnicodeData/LayoutProps.py:" + n)
    forms = FORMS if ctx.thorough else FORMS[:1] + FORMS[4:5]
    ctx.fan([(k, w, n, i) for n in (8, 12, 16) for k, w in forms for i in range(3)] + [(k, w, 0, i) for k, w in forms for i in range(3)], one, limit=60)
    return {"explanation": "LayoutProps is loaded from a data file of unknown contents and its three lookups of an unknown code point compared with the "
                           "definition: the tries between the recorded ends, each read as a serialized code point trie."}


def known_normalization_file(names, kind, width):
    """A file with normalization data under each name; only the header, the indexes and the trie headers are known."""
    f = File([(n, 16384 + 65536 * 16 * i) for i, n in enumerate(names)], size=var("fileLength", 1 << 24, 1 << 33))
    places = {}
    for j, n in enumerate(names):
        at = 16384 + 65536 * 16 * j
        f.put(at, 24 + 8 * j, 2)
        base = at + 24 + 8 * j
        start = base + 4 * (20 + 4 * j)
        end = known_trie(f, start, kind, width, (1100 if kind == 0 else 90) + 2 * j, 70000 * j + 600, 0x20000 + 0x4000 * j)
        words = 1500 + 22 * j
        fcd = end + 2 * words
        ix = {0: start - base, 1: end - base, 2: fcd - base, 3: fcd + 256 - base, 4: 0, 5: 0, 6: 0, 7: fcd + 256 - base, 8: 0xC0 + j, 9: 0x300 + j,
              10: 4 + 4 * j, 11: 0x200 + 8 * j, 12: 0xA00 + 16 * j, 13: 0xFC00 - 64 - 16 * j, 14: 0x100 + j * 6, 15: 0x300 + 4 * j, 16: 0x400 + 4 * j,
              17: 0x800 + 4 * j, 18: 0x300, 19: 0}
        for i in range(20 + 4 * j):
            f.put(base + 4 * i, ix.get(i, 0), 4)
        f.offset[n] = lin(at)
        places[n] = (lin(at), lin(base), [lin(ix[i]) for i in range(20)], lin(start), lin(end), lin(fcd))
    return f, places


def normalization_file(names, kind, width, known=False):
    """A file with normalization data of unknown contents under each name."""
    f = File([(n, 4096 * (i + 1) if known else None) for i, n in enumerate(names)], size=var("fileLength", 1 << 24, 1 << 33))
    places = {}
    for n in names:
        at = f.offset[n]
        if known:
            f.put(unlin(lin(at)).__index__(), 24, 2)
        f.in_file(add(at, 24))
        base = add(at, f.u16(at))
        ix = [f.u32(add(base, 4 * i)) for i in range(20)]
        n_ix = div(ix[0], 4)
        f.assume(sub(n_ix, 20), ">=")
        f.assume(sub(1024, n_ix), ">=")
        f.in_file(add(base, scale(n_ix, 4)))
        start, limit, end = (add(base, ix[i]) for i in (0, 1, 2))
        f.assume(sub(start, add(base, scale(n_ix, 4))), ">=")
        f.assume(sub(limit, start), ">=")
        f.assume(sub(end, limit), ">=")
        f.in_file(end)
        serialized_trie(f, start, limit, width, kind)
        f.assume(sub(ix[10], 4), ">=")
        for a, b in ((10, 14), (14, 11), (11, 15), (15, 16), (16, 17), (17, 12), (12, 13)):
            f.assume(sub(ix[b], ix[a]), ">=")
        f.assume(sub(0xFC00, ix[13]), ">=")
        f.assume(mod(ix[13], 8), "==")
        f.assume(mod(sub(end, limit), 2), "==")
        # the composition lists are inside the extra data
        f.assume(sub(sub(div(sub(end, limit), 2), div(sub(0xFC00, ix[13]), 2)), 64), ">=")
        places[n] = (at, base, ix, start, limit, end)
    return f, places


@check("N04")
def n04(ctx):
    where = "UnicodeData/Normalizer2.py:Normalizer2.createFromFileData"
    names = ("nfkc.nrm", "nfkc_cf.nrm")
    c = var("c", 0, 0x10FFFF)

    def one(ctx, item):
        kind, width, i, what, how, known = item
        n = names[i]
        f, places = known_normalization_file(names, kind, width) if known else normalization_file(names, kind, width, what != "lookup")
        w = f.project(ctx, ["UnicodeData.CPTrie", "UnicodeData.Norm2NFCData", "UnicodeData.Utilities"])
        t = w.spec("cptrie")
        inject = {n: t(n) for n in ("u16", "u32", "from_bytes", "From", "Words", "reference")}
        inject.update({k: v for k, v in module_attrs(w, "UnicodeData.Norm2NFCData").items() if k.startswith("norm2")})
        s = spec(w, "norm", inject)
        if what == "lookup":
            w.equiv("trie values of %s (%s trie, width %d)" % (n, ("fast", "small")[kind], width) + known, s("given_lookup"), s("file_lookup"), fixed(i, c),
                    ref_args=lambda vm, st, a: (f.raw(st), f.offset[n], width, c), facts=f.facts, where=where)
        else:
            ascii_case(f, places[n], width, 3 if ctx.thorough else 2, how)
            w.equiv("%s of an ASCII character, %s (width %d, %s)" % (what, n, width, how) + known, s("given_file_" + what), s("file_" + what),
                    fixed(i, var("c", 0, 127)), ref_args=lambda vm, st, a: (f.raw(st), f.offset[n], width, a[1]), facts=f.facts, where=where)
    items = [(k, w, i, "lookup", "", p) for p in (", known indexes", "") for k, w in (FORMS if ctx.thorough else FORMS[:1] + FORMS[5:]) for i in (0, 1)]
    items += [(0, w, i, d, h, p) for p in (", known indexes", "") for w in ((0, 1) if ctx.thorough else (0,)) for i in (0, 1)
              for d, h in (("decomposition", "-"), ("raw_decomposition", "whole raw mapping"), ("raw_decomposition", "first unit replaced"))]
    ctx.fan(items, one, limit=30)
    return {"explanation": "Normalizer2 is loaded from a data file with two sets of normalization data of unknown contents; the trie values of an unknown "
                           "code point and the decompositions of an unknown ASCII character (its data is found directly, the thresholds and the mapping "
                           "data are unknown) are compared with the definition over the bytes."}


def ascii_case(f, place, width, longest, how):
    at, base, ix, start, limit, end = place
    data = add(add(start, 16), scale(f.u16(add(start, 6)), 2))
    c = var("c", 0, 127)
    n = f.u32(add(data, scale(lin(c), 4))) if width == 1 else f.u16(add(data, scale(lin(c), 2)))
    f.assume(sub(n, ix[12]), "<")           # not algorithmic
    # mappings of at most so many units
    words = add(limit, scale(div(sub(0xFC00, ix[13]), 2), 2))
    i = div(n, 2)

    def unit(k):
        return f.u16(add(words, scale(k, 2)))
    first = unit(i)
    f.assume(sub(mod(first, 32), longest + 1), "<")
    b = mod(div(first, 128), 2)
    f.assume(sub(sub(end, words), scale(add(i, longest + 4), 2)), ">=")
    f.assume(sub(i, 34), ">=")
    j = sub(sub(i, b), 1)
    if how == "first unit replaced":
        f.assume(sub(unit(j), 32), ">=")
        f.assume(sub(mod(first, 32), 2), ">=")
    else:
        f.assume(sub(unit(j), longest + 1), "<")
