"""T01..T05: the two trie formats."""
from . import check
from .common import *
from sa.natives import sym_array, SymArray


def drivers(ctx):
    return ctx.spec("drivers", {"UTrie2": ctx.anchor("UnicodeData.Utrie2", "UTrie2"), "CPTrie": ctx.anchor("UnicodeData.CPTrie", "CPTrie")})


@check("T01")
def t01(ctx):
    d = drivers(ctx)
    spec = trie_spec(ctx)("lookup")
    il = var("indexLength", 0x840, 0xFFFF)
    n2, n1 = var("index2Null", 0, 0xFFFF), var("dataNull", 0, 0x3FFFF)
    hs, hv = var("highStart", 0, 0x110000), var("highValueIndex", 0, 0x3FFFF)
    init = var("initialValue", 0, 0xFFFFFFFF)
    c = var("c", 0, 0x7FFFFFFF)
    for drv in ("utrie2_get", "utrie2_get_default"):
        def args(vm, st):
            a = sym_array(st, "index", 0, 0xFFFF, var("len", 0x1000, 0x200000))
            return ((a, il, n2, n1, hs, hv) + ((init,) if drv == "utrie2_get" else ()) + (c,), {})
        ctx.equiv("get (%s)" % drv, d(drv), spec, args, where="UnicodeData/Utrie2.py:UTrie2.get",
                  ref_args=lambda vm, st, a: (a[0], a[1], a[4], a[5], a[-1]))
    return {"explanation": "UTrie2 objects are built through their constructor over an index array of unknown contents and lookups of an unknown "
                           "code point (any non-negative integer) compared with ICU's macro definition, for every header value."}


@check("T03")
def t03(ctx):
    d = drivers(ctx)
    spec = ctx.spec("cptrie")("reference")
    hs = var("highStart", 0, 0x110000)
    n3, n1 = var("index3Null", 0, 0xFFFF), var("dataNull", 0, 0xFFFFF)
    dl = var("dataLength", 2, 0xFFFFF)
    c = var("c", 0, 0x7FFFFFFF)
    for tt, name in ((0, "fast"), (1, "small")):
        for vw in (0, 1, 2):
            def args(vm, st):
                a = sym_array(st, "index", 0, 0xFFFF, var("indexLength", 64, 0xFFFF))
                b = sym_array(st, "data", 0, 0xFFFFFFFF, dl)
                return ((a, b, tt, vw, n3, n1, hs, var("shifted12", 0, 0x110), c), {})
            ctx.equiv("get (%s, width %d)" % (name, vw), d("cptrie_get"), spec, args, where="UnicodeData/CPTrie.py:CPTrie.get",
                      ref_args=lambda vm, st, a: (a[0], a[1], dl, a[2], a[6], a[8]))
    return {"explanation": "CPTrie objects of both types over index and data arrays of unknown contents; lookups of an unknown code point compared "
                           "with the ucptrie.h definition, including 18-bit index-3 groups, high values and the error value."}


def file_bytes(name="b", known=None):
    return SymTable(name, 0, 255, known)


@check("T05")
def t05(ctx):
    d = drivers(ctx)
    spec = ctx.spec("cptrie")
    c = var("c", 0, 0x7FFFFFFF)
    n = var("len", 16, 1 << 24)

    def at(t, i, k):
        return add(read(t, i), scale(read(t, i + 1), 256)) if k == 2 else read(t, i)
    for width, size in ((0, 2), (1, 4), (2, 1)):
        for kind in (0, 1):
            t = file_bytes("b%d%d" % (width, kind))
            opt = at(t, 4, 2)
            dl = add(scale(div(opt, 4096), 65536), at(t, 8, 2))
            f = Facts()
            for x, rel in ((sub(mod(opt, 8), width), "=="), (sub(mod(div(opt, 64), 4), kind), "=="),
                           (sub(n, add(add(16, scale(at(t, 6, 2), 2)), scale(dl, size))), ">=")):
                f = f.assume(lin(x), rel) or f
            data = FrozenV("bytes", (t, 0, n))

            def args(vm, st):
                return (data, c), {}

            def raw(vm, st, a):
                return st.alloc(NativeO(SymArray(), {"table": t, "len": lin(n), "off": lin(0)}))
            where = "UnicodeData/CPTrie.py:CPTrie.createFromData"
            name = "%s trie of %d-byte values" % (("fast", "small")[kind], size)
            ctx.equiv("header of a " + name, d("cptrie_fields"), spec("fields"), lambda vm, st: ((data,), {}),
                      ref_args=lambda vm, st, a: (raw(vm, st, a),), facts=f.copy(), where=where)
            ctx.equiv("get on a serialized " + name, d("cptrie_from_bytes"), spec("from_bytes"), args,
                      ref_args=lambda vm, st, a: (raw(vm, st, a), width, c), facts=f.copy(), where=where)
    return {"explanation": "CPTrie.createFromData over bytes of unknown contents and length: every header field and every lookup on the resulting object "
                           "compared with the serialized form of ucptrie.h, for both trie types and the three value widths."}
