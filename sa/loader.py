"""Builds the abstract module namespaces of a source tree."""
import ast
import os
from .expr import Table
from .facts import Facts
from .vm import *
from .vm import NULL, PUSHED
from . import builtins_ as B
from .builtins_ import BUILTINS, conc, concrete_items

TABLE_MIN = 24


_compiled = {}


def compiled(src, filename):
    code = _compiled.get((filename, src))
    if code is None:
        code = _compiled[filename, src] = compile(src, filename, "exec", dont_inherit=True)
    return code


class Loader(object):
    def __init__(self, vm, root, packages=("UnicodeData",), paths=("module_builder",)):
        self.vm, self.root = vm, root
        self.packages = packages
        self.paths = paths
        self.sources = {}
        self.lib = {}
        self.loading = []
        self.overrides = {}
        self.overridden = set()

    # ------------------------------------------------------------ files
    def find(self, name):
        """(path, is_package, module name) for a module of the tree."""
        parts = name.split(".")
        cands = []
        if parts[0] in self.packages:
            cands.append(os.path.join(self.root, *parts))
        else:
            for p in self.paths:
                cands.append(os.path.join(self.root, p, *parts))
        for c in cands:
            if os.path.isfile(c + ".py"):
                return c + ".py", False
            if os.path.isdir(c) and os.path.isfile(os.path.join(c, "__init__.py")):
                return os.path.join(c, "__init__.py"), True
            if os.path.isdir(c):
                return None, True
        return None

    def names(self):
        out = []
        for p in self.packages:
            for dp, dn, fn in os.walk(os.path.join(self.root, p)):
                rel = os.path.relpath(dp, self.root).replace(os.sep, ".")
                for f in sorted(fn):
                    if f.endswith(".py"):
                        out.append(rel if f == "__init__.py" else rel + "." + f[:-3])
        for p in self.paths:
            d = os.path.join(self.root, p)
            if os.path.isdir(d):
                for f in sorted(os.listdir(d)):
                    if f.endswith(".py"):
                        out.append(f[:-3])
        return out

    # ------------------------------------------------------------ imports
    def import_(self, vm, st, f, name, fromlist, level):
        g = st.get(f.globals)
        if level:
            base = g.attrs.get("__package__", "")
            parts = base.split(".") if base else []
            if level > 1:
                parts = parts[:len(parts) - (level - 1)]
            full = ".".join(parts + ([name] if name else []))
        else:
            full = name
        return self.get_module(vm, st, full, fromlist, name if not level else full)

    def get_module(self, vm, st, full, fromlist, name):
        target = full
        r = vm.modules.get(full)
        if r is None or not st.has(r):          # a module may also be loaded within one path
            loc = self.find(full)
            if loc is not None:
                r = self.start(vm, st, full, loc)
                self.loading.append(full)
                if loc[0] is not None:
                    # the importing frame resumes with the module on its stack
                    st.frames[-2].stack.append(self._result(vm, st, full, fromlist))
                    return PUSHED
            else:
                r = self.library(vm, st, full)
        return self._result(vm, st, full, fromlist)

    def _result(self, vm, st, full, fromlist):
        if fromlist or "." not in full:
            return vm.modules[full]
        top = full.split(".")[0]
        if top not in vm.modules:
            self.library(vm, st, top)
        return vm.modules[top]

    def import_sub(self, vm, st, m, name):
        if isinstance(m, Ref):
            full = st.get(m).name + "." + name
            r = vm.modules.get(full)
            if r is not None and st.has(r):
                return r
            loc = self.find(full)
            if loc is not None:
                r = self.start(vm, st, full, loc)
                st.frames[-2].stack.append(r)
                return PUSHED
        if vm.tolerant:
            return Unk(name)
        raise PyRaise(ExcV("ImportError", (name,)))

    def submodule(self, st, name, attr):
        r = self.vm.modules.get(name + "." + attr)
        return r if r is not None and st.has(r) else None

    def start(self, vm, st, full, loc):
        path, ispkg = loc
        pkg = full if ispkg else full.rpartition(".")[0]
        attrs = {"__name__": full, "__package__": pkg, "__file__": path, "__doc__": None}
        r = st.alloc(ModuleO(full, attrs))
        vm.modules[full] = r
        if path is None:
            return r
        src = open(path, encoding="utf-8").read()
        rel = os.path.relpath(path, self.root)
        self.sources[full] = (rel, src)
        fr = Frame(codeinfo(compiled(src, rel)), r)
        fr.names = r
        fr.on_ret = "import"
        st.frames.append(fr)
        return r

    def load_source(self, vm, st, name, src, filename, inject=None):
        attrs = {"__name__": name, "__package__": "", "__file__": filename}
        attrs.update(inject or {})
        r = st.alloc(ModuleO(name, attrs))
        vm.modules[name] = r
        fr = Frame(codeinfo(compiled(src, filename)), r)
        fr.names = r
        fr.on_ret = "import"
        st.frames.append(fr)
        out = vm.explore(st)
        assert len(out) == 1, out
        out[0].status = "run"
        return r

    # ------------------------------------------------------------ tables
    def name_table(self, st, f, name, ref, lst):
        if self.overrides:
            h = self.overrides.get((st.get(f.globals).name, name))
            if h is not None:
                o = h(st)               # a harness's view of a data table
                o.owner = None
                st.heap[ref.id] = o
                self.overridden.add((st.get(f.globals).name, name))
                return
        if lst.table is None and len(lst.items) >= TABLE_MIN and all(type(v) is int for v in lst.items):
            mod = st.get(f.globals).name
            lst.table = Table(name, lst.items)

    def known(self, full):
        return full in KNOWN or full in self.lib

    # ------------------------------------------------------------ library
    def library(self, vm, st, full):
        attrs = {"__name__": full}
        P = B.PRELUDE
        top = full.split(".")[0]

        def bi(name, fn):
            return BuiltinV(name, fn)
        if full == "itertools":
            for n in ("chain", "count", "islice", "takewhile", "dropwhile", "repeat", "cycle", "pairwise", "accumulate",
                      "zip_longest", "starmap", "product", "compress", "filterfalse", "groupby"):
                attrs[n] = P["_" + n]
            ch = P["_chain"]
            ch.attrs["from_iterable"] = P["_chain_from"]
        elif full == "functools":
            attrs["reduce"] = P["_reduce"]
            attrs["lru_cache"] = attrs["cache"] = P["_identity_deco"]
            attrs["wraps"] = P["_wraps"]
            attrs["total_ordering"] = P["_identity_deco"]
            attrs["cmp_to_key"] = P["_cmp_to_key"]
            attrs["cached_property"] = BUILTINS["property"]
            attrs["partial"] = bi("partial", lambda vm, st, a, k: PartialV(a[0], a[1:], k))
            attrs["partialmethod"] = attrs["partial"]
        elif full == "operator":
            for n, o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("floordiv", "//"), ("truediv", "/"), ("mod", "%"), ("and_", "&"),
                         ("or_", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"), ("iand", "&"), ("ior", "|"), ("ixor", "^"),
                         ("iadd", "+"), ("isub", "-"), ("pow", "**")):
                attrs[n] = bi(n, (lambda o: lambda vm, st, a, k: B.binary(vm, st, o, a[0], a[1]))(o))
            for n, o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
                attrs[n] = bi(n, (lambda o: lambda vm, st, a, k: B.compare(vm, st, o, a[0], a[1]))(o))
            attrs["not_"] = bi("not_", lambda vm, st, a, k: not B.truth(vm, st, a[0]))
            attrs["truth"] = bi("truth", lambda vm, st, a, k: B.truth(vm, st, a[0]))
            attrs["neg"] = bi("neg", lambda vm, st, a, k: B.unary(vm, st, "-", a[0]))
            attrs["inv"] = attrs["invert"] = bi("inv", lambda vm, st, a, k: B.unary(vm, st, "~", a[0]))
            attrs["index"] = bi("index", lambda vm, st, a, k: a[0])
            attrs["contains"] = bi("contains", lambda vm, st, a, k: B.contains(vm, st, a[0], a[1]))
            attrs["getitem"] = bi("getitem", lambda vm, st, a, k: B.getitem(vm, st, a[0], a[1]))
            attrs["itemgetter"] = bi("itemgetter", lambda vm, st, a, k: GetterV("item", a))
            attrs["attrgetter"] = bi("attrgetter", lambda vm, st, a, k: GetterV("attr", a))
            attrs["is_"] = bi("is_", lambda vm, st, a, k: B.is_(vm, st, a[0], a[1]))
            attrs["is_not"] = bi("is_not", lambda vm, st, a, k: not B.is_(vm, st, a[0], a[1]))
        elif full == "bisect":
            attrs["bisect_left"] = P["_bisect_left"]
            attrs["bisect_right"] = attrs["bisect"] = P["_bisect_right"]
            attrs["insort"] = attrs["insort_right"] = P["_insort"]
        elif full == "contextlib":
            attrs["nullcontext"] = P["_nullcontext"]
            attrs["suppress"] = Unk("suppress")
            attrs["contextmanager"] = P["_identity_deco"]
            attrs["closing"] = P["_nullcontext"]
        elif full == "enum":
            for n in ("Enum", "IntEnum", "IntFlag", "Flag"):
                attrs[n] = TypeV(n, lambda vm, st, a, k: Unk("enum"))
            attrs["auto"] = Unk("auto")
            attrs["unique"] = P["_identity_deco"]
        elif full == "dataclasses":
            attrs["dataclass"] = bi("dataclass", dataclass_)
            attrs["field"] = bi("field", lambda vm, st, a, k: FrozenV("field", tuple(sorted(k.items(), key=lambda t: t[0]))))
        elif full == "collections":
            attrs["OrderedDict"] = BUILTINS["dict"]
            attrs["defaultdict"] = bi("defaultdict", defaultdict_)
            attrs["deque"] = BUILTINS["list"]
            attrs["namedtuple"] = bi("namedtuple", namedtuple_)
            attrs["Counter"] = Unk("Counter")
            attrs["abc"] = Unk("abc")
        elif full == "math":
            attrs["floor"] = bi("floor", lambda vm, st, a, k: B.num_floordiv(vm, st, a[0], 1) if not isinstance(a[0], (int, float)) else int(a[0] // 1))
            attrs["inf"] = float("inf")
            attrs["pi"] = 3.141592653589793
            for n in ("ceil", "log2", "log", "sqrt"):
                attrs[n] = Unk(n)
            attrs["gcd"] = bi("gcd", math_gcd)
        elif full == "struct":
            attrs["unpack"] = bi("struct.unpack", struct_unpack)
            attrs["unpack_from"] = bi("struct.unpack_from", struct_unpack_from)
            attrs["calcsize"] = bi("struct.calcsize", lambda vm, st, a, k: B.struct_calcsize(vm, st, a[0]))
            attrs["error"] = TypeV("StructError", lambda vm, st, a, k: ExcV("StructError", a))
            attrs["iter_unpack"] = bi("struct.iter_unpack", struct_iter_unpack)
            attrs["Struct"] = bi("struct.Struct", lambda vm, st, a, k: FrozenV("Struct", a))
        elif full == "typing":
            attrs["cast"] = bi("cast", lambda vm, st, a, k: a[1])
            attrs["NamedTuple"] = BuiltinV("NamedTuple", namedtuple_typing)
            attrs["overload"] = P["_identity_deco"]
            attrs["no_type_check"] = P["_identity_deco"]
            attrs["final"] = P["_identity_deco"]
            attrs["TYPE_CHECKING"] = False
            attrs["Generic"] = Unk("Generic")
            for n in ("Any", "Optional", "Union", "List", "Tuple", "Dict", "Set", "FrozenSet", "Callable", "Iterator", "Iterable",
                      "Sequence", "Generator", "Type", "TypeVar", "ClassVar", "Final", "Literal", "Protocol", "IO", "Mapping", "Self",
                      "Collection", "Hashable", "Sized", "Container", "Counter", "DefaultDict", "Deque", "TextIO", "BinaryIO", "NoReturn",
                      "NewType", "Concatenate", "ParamSpec", "TypeAlias", "Annotated", "SupportsInt", "AnyStr", "Awaitable", "MutableMapping", "MutableSequence"):
                attrs[n] = Unk("typing." + n)
            attrs["TypeVar"] = BuiltinV("TypeVar", lambda vm, st, a, k: Unk("TypeVar"))
        elif full == "pkg_resources":
            attrs["resource_filename"] = bi("resource_filename", resource_filename)
        elif full in ("fontTools.misc.sstruct",):
            attrs["unpack"] = bi("sstruct.unpack", sstruct_unpack)
            attrs["unpack2"] = bi("sstruct.unpack2", sstruct_unpack2)
            attrs["calcsize"] = bi("sstruct.calcsize", sstruct_calcsize)
        else:
            h = self.lib.get(full)
            if h is not None:
                attrs.update(h(vm, st))
        r = st.alloc(ModuleO(full, attrs))
        vm.modules[full] = r
        if vm.base:
            vm.base[r.id] = st.heap.pop(r.id)   # a library module is the same on every path
            vm.base[r.id].owner = None
        if full not in KNOWN:
            B.OPAQUE_MODULES.add(full)
        if "." in full:
            parent, _, leaf = full.rpartition(".")
            if parent not in vm.modules:
                self.library(vm, st, parent)
        return r


KNOWN = {"itertools", "functools", "operator", "bisect", "enum", "dataclasses", "collections", "math", "struct", "contextlib", "fontTools.misc.sstruct"}


def resource_filename(vm, st, a, k):
    if all(isinstance(x, str) for x in a):
        return "/".join([a[0].replace(".", "/"), a[1]])
    raise Unsupported("resource_filename%r" % (a,))


def math_gcd(vm, st, a, k):
    import math
    return math.gcd(*a)


def defaultdict_(vm, st, a, k):
    r = BUILTINS["dict"].impl(vm, st, a[1:], k)
    st.mut(r).d[("__default__",)] = a[0]
    return r


def namedtuple_(vm, st, a, k):
    names = a[1]
    if isinstance(names, str):
        names = names.replace(",", " ").split()
    else:
        names = concrete_items(vm, st, names)
    return st.alloc(ClassO(a[0], (BUILTINS["object"],), {"__nt_fields__": tuple(names)}))


def namedtuple_typing(vm, st, a, k):
    its = [concrete_items(vm, st, x)[0] for x in concrete_items(vm, st, a[1])]
    return st.alloc(ClassO(a[0], (BUILTINS["object"],), {"__nt_fields__": tuple(its)}))


def dataclass_(vm, st, a, k):
    if not a:
        return BuiltinV("dataclass", lambda vm, st, a2, k2: dataclass_(vm, st, a2, k))
    c = a[0]
    o = st.mut(c)
    ann = o.attrs.get("__ann__")
    names = [n for n in st.get(ann).d] if isinstance(ann, Ref) else []
    defaults = {n: o.attrs[n] for n in names if n in o.attrs}

    def init(vm, st, args, kw):
        self = args[0]
        vals = dict(zip(names, args[1:]))
        vals.update(kw)
        m = st.mut(self)
        for n in names:
            if n in vals:
                m.attrs[n] = vals[n]
            elif n in defaults:
                d = defaults[n]
                if isinstance(d, FrozenV) and d.tag == "field":
                    dd = dict(d.data)
                    if "default" in dd:
                        d = dd["default"]
                    else:
                        d = dd["default_factory"].impl(vm, st, (), {})
                m.attrs[n] = d
            else:
                raise PyRaise(ExcV("TypeError", (n,)))
        return None
    if "__init__" not in o.attrs:
        o.attrs["__init__"] = BuiltinV("dataclass.__init__", init)
    return c


# ---- struct / sstruct over symbolic bytes

def need(vm, st, data, off, size):
    """Is [off, off+size) inside data?  Raises the struct error when not."""
    n = B.len_(vm, st, data)
    return n


def struct_values(vm, st, fmt, data, off, exact):
    p = B.parse_struct(fmt)
    if p is None:
        raise Unsupported("struct format %r" % (fmt,))
    toks, little, native = p
    if isinstance(data, bytes):
        import struct
        if isinstance(fmt, str) and isinstance(off, int):
            try:
                return struct.unpack_from(fmt, data, off)
            except struct.error:
                raise PyRaise(ExcV("StructError"))
    if isinstance(data, Unk):
        if vm.tolerant:
            return Unk("unpack")
        raise Unsupported("unpack of unknown at %s" % st.where())
    if not (isinstance(data, FrozenV) and data.tag == "bytes"):
        raise Unsupported("unpack of %r" % (data,))
    name, lo, hi = data.data
    layout, total = B.struct_layout(toks, native)
    n = sub(lin(hi), lin(lo))
    if exact:
        if not B.num_cmp(st, "==", unlin(n), unlin(total)):
            raise PyRaise(ExcV("StructError"))
    elif B.num_cmp(st, "<", unlin(sub(n, lin(off))), unlin(total)):
        raise PyRaise(ExcV("StructError"))
    base = add(lin(lo), lin(off))
    out = []
    for ch, c, size, at in layout:
        pos = add(base, at)
        if ch == "x":
            continue
        if ch == "s":
            out.append(FrozenV("bytes", (name, unlin(pos), unlin(add(pos, lin(c))))))
            continue
        cc = conc(c) if not isinstance(c, int) else c
        if cc is None or cc > 32:
            # one run of unknown (or great) length
            if len(layout) != 1:
                raise Unsupported("struct format with two runs of unknown length")
            from .natives import unpacked_run
            return unpacked_run(st, name, pos, size, little, ch.islower(), c)
        for i in range(cc):
            v = unlin(B.scalar(name, add(pos, i * size), size, little, ch.islower()))
            if ch == "c":
                v = FrozenV("bytes", (name, unlin(add(pos, i)), unlin(add(pos, i + 1))))
            elif ch == "?":
                v = B.num_cmp(st, "!=", v, 0)
            out.append(v)
    return tuple(out)


def struct_unpack(vm, st, a, k):
    return struct_values(vm, st, a[0], a[1], 0, True)


def struct_unpack_from(vm, st, a, k):
    off = a[2] if len(a) > 2 else k.get("offset", 0)
    return struct_values(vm, st, a[0], a[1], off, False)


def struct_iter_unpack(vm, st, a, k):
    fmt, data = a
    p = B.parse_struct(fmt)
    if p is None or not (isinstance(data, bytes) or isinstance(data, FrozenV) and data.tag == "bytes"):
        raise Unsupported("iter_unpack of %r" % (data,))
    toks, little, native = p
    layout, total = B.struct_layout(toks, native)
    total = B.conc(unlin(lin(total)))
    if not total or len(layout) != 1 or B.conc(layout[0][1]) != 1 or isinstance(data, bytes):
        n = B.concretise(vm, st, B.len_(vm, st, data))
        if not total or n % total:
            raise PyRaise(ExcV("StructError"))
        out = [struct_values(vm, st, fmt, data, i, False) for i in range(0, n, total)]
        return st.alloc(B.IterO("seq", tuple(out), 0))
    # a run of equal numbers of unknown length
    n = B.len_(vm, st, data)
    if not B.num_cmp(st, "==", B.binary(vm, st, "%", n, total), 0):
        raise PyRaise(ExcV("StructError"))
    from .natives import unpacked_run
    run = unpacked_run(st, data.data[0], lin(data.data[1]), layout[0][2], little, layout[0][0].islower(), B.binary(vm, st, "//", n, total))
    return B.CallLater(B.PRELUDE["_singles"], (run,))


def sstruct_fields(text):
    out = []
    order = "@"
    for line in text.replace(";", "\n").split("\n"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        if line in ("<", ">", "=", "!", "@"):
            order = line
            continue
        name, _, code = line.partition(":")
        out.append((name.strip(), code.strip()))
    return out, order


def sstruct_calcsize(vm, st, a, k):
    f, order = sstruct_fields(a[0])
    return B.struct_calcsize(vm, st, order + "".join(c for _, c in f))


def sstruct_unpack(vm, st, a, k):
    if isinstance(a[1], Unk) and vm.tolerant:
        return Unk("sstruct")
    f, order = sstruct_fields(a[0])
    fmt = order + "".join(c for _, c in f)
    vals = struct_values(vm, st, fmt, a[1], 0, True)
    obj = a[2] if len(a) > 2 else k.get("object")
    if obj is None:
        return st.alloc(DictO(dict(zip([n for n, c in f if c != "x"], vals))))
    names = [n for n, c in f if not c.endswith("x")]
    for n, v in zip(names, vals):
        if isinstance(obj, Ref) and st.get(obj).kind == "dict":
            st.mut(obj).d[n] = v
        else:
            vm.setattr(st, obj, n, v)
    return obj


def sstruct_unpack2(vm, st, a, k):
    size = sstruct_calcsize(vm, st, a[:1], {})
    head = B.getitem(vm, st, a[1], SliceV(0, size))
    obj = sstruct_unpack(vm, st, (a[0], head) + a[2:], k)
    return (obj, B.getitem(vm, st, a[1], SliceV(size, None)))


# ---------------------------------------------------------------- project

class Project(object):
    """A source tree with its abstract module namespaces."""

    def __init__(self, root, modules=None, overrides=None):
        self.vm = VM()
        self.vm.tolerant = True
        self.loader = Loader(self.vm, root)
        self.vm.loader = self.loader
        self.loader.overrides = overrides or {}
        st = State(self.vm, Facts())
        here = os.path.dirname(os.path.abspath(__file__))
        pre = self.loader.load_source(self.vm, st, "<prelude>", open(os.path.join(here, "prelude.py")).read(), "<prelude>")
        st.frames = []
        B.PRELUDE.clear()
        B.PRELUDE.update({k: v for k, v in st.get(pre).attrs.items() if not k.startswith("__")})
        self.errors = {}
        names = modules if modules is not None else self.loader.names()
        for n in names:
            if n in self.vm.modules:
                continue
            loc = self.loader.find(n)
            if loc is None or loc[0] is None:
                continue
            st.status = "run"
            st.frames = []
            try:
                self.loader.start(self.vm, st, n, loc)
            except SyntaxError as e:
                self.errors[n] = repr(e)
                continue
            out = self.vm.explore(st)
            if len(out) != 1:
                raise Unsupported("module %s forks" % n)
            st = out[0]
            if st.status == "raise":
                self.errors[n] = repr(st.result)
        st.status = "run"
        st.frames = []
        self.vm.base = st.heap
        for o in st.heap.values():
            o.owner = None
        self.vm.tolerant = False
        self.vm.covered = set()

    def state(self, facts=None):
        return State(self.vm, facts or Facts())

    def module(self, name):
        return self.vm.modules[name]

    def get(self, modname, name):
        m = self.vm.base[self.vm.modules[modname].id]
        return m.attrs[name]

    def has(self, modname, name):
        r = self.vm.modules.get(modname)
        return r is not None and name in self.vm.base[r.id].attrs

    def source(self, modname):
        return self.loader.sources[modname]

    def add_module(self, name, src, inject=None):
        """Load a checker-owned module (a specification) next to the project."""
        st = State(self.vm, Facts())
        self.vm.tolerant = True
        r = self.loader.load_source(self.vm, st, name, src, "<%s>" % name, inject)
        self.vm.tolerant = False
        base = dict(self.vm.base)
        base.update(st.heap)
        for o in st.heap.values():
            o.owner = None
        self.vm.base = base
        return r

    def call(self, func, args, kwargs=None, facts=None, st=None, ghost=None, sink=None):
        """Explore a call; returns the leaf states."""
        st = st or self.state(facts)
        r = self.vm.push_call(st, func, tuple(args), kwargs or {}, "top")
        if r is not PUSHED:
            st.status = "ret"
            st.result = r
            if sink is not None:
                sink(st)
            return [st]
        return self.vm.explore(st, sink)
