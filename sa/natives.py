"""Harness-defined objects with symbolic contents."""
from .expr import *
from .vm import *
from .vm import CallLater, IterO
from . import builtins_ as B


class Native(object):
    pytype = "object"

    def _no(self, st, what):
        raise Unsupported("%s of a symbolic %s at %s" % (what, type(self).__name__, st.where()))

    def getitem(self, vm, st, ref, ob, k):
        self._no(st, "item")

    def setitem(self, vm, st, ref, ob, k, v):
        self._no(st, "item assignment")

    def delitem(self, vm, st, ref, ob, k):
        self._no(st, "item deletion")

    def len_(self, vm, st, ref, ob):
        self._no(st, "length")

    def contains(self, vm, st, ref, ob, x):
        self._no(st, "membership")

    def get_iter(self, vm, st, ref, ob):
        self._no(st, "iteration")

    def next_(self, vm, st, ref, ob, on_end):
        self._no(st, "iteration")

    def append(self, vm, st, ref, ob, v):
        self._no(st, "append")

    def extend(self, vm, st, ref, ob, v):
        self._no(st, "extend")

    def getattr(self, vm, st, ref, ob, name):
        self._no(st, "attribute %s" % name)

    def setattr(self, vm, st, ref, ob, name, v):
        self._no(st, "attribute assignment")

    def call(self, vm, st, ref, ob, args, kw):
        self._no(st, "call")


class SymArray(Native):
    """A read-only sequence of unknown contents and unknown length.  Indexes are
    taken to be in bounds (well-formed data); negative ones count from the end."""
    pytype = "list"

    def getitem(self, vm, st, ref, ob, k):
        n = ob.data["len"]
        if isinstance(k, SliceV):
            if k.step not in (None, 1):
                self._no(st, "stepped slice")
            lo = lin(k.start if k.start is not None else 0)
            hi = lin(k.stop if k.stop is not None else n)
            d = dict(ob.data)
            d["off"] = add(d["off"], self.wrap(st, lo, n))
            d["len"] = sub(self.wrap(st, hi, n), self.wrap(st, lo, n))
            return st.alloc(NativeO(self, d))
        if isinstance(k, bool):
            k = int(k)
        if not isinstance(k, (int, Lin)):
            raise PyRaise(ExcV("TypeError"))
        i = self.wrap(st, lin(k), n)
        i = add(ob.data["off"], i)
        if ob.data["table"].placed and any(a.kind == "div" for a, _ in i.terms):
            i = st.facts.simplify(i)
        return unlin(read(ob.data["table"], i))

    def wrap(self, st, i, n):
        if st.facts.decide(i, "<") is True:
            return add(i, lin(n))
        return i

    def get_iter(self, vm, st, ref, ob):
        return CallLater(B.PRELUDE["_sized_iter"], (ref,))

    def len_(self, vm, st, ref, ob):
        return unlin(lin(ob.data["len"]))

    def truth(self, vm, st, ref, ob):
        return True


def sym_array(st, name, lo, hi, length):
    """A fresh symbolic array; contents in lo..hi."""
    return st.alloc(NativeO(SymArray(), {"table": SymTable(name, lo, hi), "len": lin(length), "off": lin(0)}))


class SymTrie(Native):
    """Any code point trie: get(c) is an unknown function of c."""
    pytype = "object"

    def getattr(self, vm, st, ref, ob, name):
        if name == "get":
            t = ob.data["table"]
            return BuiltinV("get", lambda vm, st, a, k: unlin(read(t, lin(a[0] if a else k["c"]))))
        self._no(st, "attribute %s" % name)

    def truth(self, vm, st, ref, ob):
        return True


def sym_trie(st, name, lo, hi):
    return st.alloc(NativeO(SymTrie(), {"table": SymTable(name, lo, hi)}))


class Run(Native):
    """struct.unpack of a run of equal numbers: a tuple over the bytes of a file."""
    pytype = "tuple"

    def getitem(self, vm, st, ref, ob, k):
        d = ob.data
        if isinstance(k, SliceV):
            if k.step not in (None, 1):
                self._no(st, "stepped slice")
            a = B.clip(vm, st, k.start, unlin(d["n"]), 0)
            b = B.clip(vm, st, k.stop, unlin(d["n"]), unlin(d["n"]))
            e = dict(d)
            e["pos"] = add(d["pos"], scale(lin(a), d["size"]))
            e["n"] = sub(lin(b), lin(a))
            return st.alloc(NativeO(self, e))
        if isinstance(k, bool):
            k = int(k)
        if not isinstance(k, (int, Lin)):
            raise PyRaise(ExcV("TypeError"))
        i = lin(k)
        if st.facts.decide(i, "<") is True:
            i = add(i, d["n"])
        if st.facts.decide(sub(i, d["n"]), "<") is False:
            raise PyRaise(ExcV("IndexError"))
        return unlin(B.scalar(d["table"], add(d["pos"], scale(i, d["size"])), d["size"], d["little"], d["signed"]))

    def items(self, vm, st, ref, ob):
        n = B.conc(unlin(ob.data["n"]))
        if n is None or n > 1 << 16:
            return None
        return [self.getitem(vm, st, ref, ob, i) for i in range(n)]

    def get_iter(self, vm, st, ref, ob):
        its = self.items(vm, st, ref, ob)
        if its is None:
            return CallLater(B.PRELUDE["_getitem_iter"], (ref,))
        return st.alloc(IterO("seq", tuple(its), 0))

    def len_(self, vm, st, ref, ob):
        return unlin(ob.data["n"])

    def truth(self, vm, st, ref, ob):
        return True


def unpacked_run(st, table, pos, size, little, signed, n):
    return st.alloc(NativeO(Run(), {"table": table, "pos": lin(pos), "size": size, "little": little, "signed": signed, "n": lin(n)}))


class File(Native):
    """A binary file opened for reading."""

    def method(self, ref, fn):
        return BuiltinV("file method", lambda vm, st, a, k: fn(vm, st, st.get(ref).data, a))

    def getattr(self, vm, st, ref, ob, name):
        fn = getattr(self, "m_" + name.strip("_"), None)
        if name == "closed":
            return ob.data["closed"]
        if name == "name":
            return ob.data["path"]
        if fn is None:
            self._no(st, "attribute %s" % name)
        return self.method(ref, lambda vm, st, d, a: fn(vm, st, ref, d, a))

    def alive(self, d):
        if d["closed"]:
            raise PyRaise(ExcV("ValueError", ("I/O operation on closed file.",)))

    def put(self, st, ref, **kw):
        d = dict(st.get(ref).data)
        d.update(kw)
        st.mut(ref).data = d

    def m_enter(self, vm, st, ref, d, a):
        self.alive(d)
        return ref

    def m_exit(self, vm, st, ref, d, a):
        self.put(st, ref, closed=True)
        return None

    m_close = m_exit

    def m_read(self, vm, st, ref, d, a):
        self.alive(d)
        n = a[0] if a else None
        stop = None if n is None or n == -1 else add(lin(d["pos"]), lin(n))
        out = B.getitem(vm, st, d["content"], SliceV(d["pos"], None if stop is None else unlin(stop)))
        self.put(st, ref, pos=unlin(add(lin(d["pos"]), lin(B.len_(vm, st, out)))))
        return out

    def m_tell(self, vm, st, ref, d, a):
        return d["pos"]

    def m_seek(self, vm, st, ref, d, a):
        if len(a) > 1 and a[1] != 0:
            self._no(st, "relative seek")
        self.put(st, ref, pos=a[0])
        return a[0]


def opened(vm, st, path, mode):
    if not isinstance(path, str):
        raise Unsupported("open(%r)" % (path,))
    for end, content in vm.files.items():
        if path == end or path.endswith("/" + end):
            if mode not in ("rb", "br"):
                raise Unsupported("open mode %r" % (mode,))
            return st.alloc(NativeO(File(), {"path": path, "content": content, "pos": 0, "closed": False}))
    raise PyRaise(ExcV("FileNotFoundError", (path,)))


def open_files(vm, st, a, k):
    """The files still open (to be injected into a driver)."""
    return sum(1 for o in st.heap.values() if o.kind == "native" and isinstance(o.impl, File) and not o.data["closed"])
