"""Abstract interpreter over CPython bytecode.

The source under analysis is compiled, never imported or executed: every
instruction is given an abstract meaning over `expr`/`facts` values, paths are
partitioned on undecided comparisons, and the state (frames, stack, heap) is an
explicit value that can be duplicated.
"""
import time
import dis
import types
from .expr import *
from .facts import Facts, finite_root, bit_indices, domain


class Unsupported(Exception):
    """The analysis has no transfer function for this construct."""
    leaves = ()                       # paths that had already ended


class NeedFork(Exception):
    def __init__(self, x, rel):
        self.x, self.rel = x, rel


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class _S(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NULL = _S("NULL")
PUSHED = _S("PUSHED")       # a frame was pushed, result arrives later
UNSET = _S("UNSET")


class Unk(object):
    """An unknown value (top)."""
    __slots__ = ("tag",)

    def __init__(self, tag=""):
        self.tag = tag

    def __repr__(self):
        return "Unk(%s)" % (self.tag,)


class Ref(object):
    __slots__ = ("id",)
    n = 0

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Ref(%s)" % self.id

    def __hash__(self):
        return hash(self.id)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id


def fresh_ref():
    Ref.n += 1
    return Ref(Ref.n)


# ---- heap objects ------------------------------------------------------

class HObj(object):
    __slots__ = ("owner",)


class ListO(HObj):
    __slots__ = ("items", "table")
    kind = "list"

    def __init__(self, items, table=None):
        self.items, self.table, self.owner = items, table, None

    def clone(self):
        return ListO(list(self.items))


class DictO(HObj):
    __slots__ = ("d",)
    kind = "dict"

    def __init__(self, d):
        self.d, self.owner = d, None

    def clone(self):
        return DictO(dict(self.d))


class SetO(HObj):
    __slots__ = ("s",)
    kind = "set"

    def __init__(self, s):
        self.s, self.owner = s, None       # dict used as ordered set

    def clone(self):
        return SetO(dict(self.s))


class InstO(HObj):
    __slots__ = ("cls", "attrs")
    kind = "inst"

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs, self.owner = cls, attrs if attrs is not None else {}, None

    def clone(self):
        return InstO(self.cls, dict(self.attrs))


class ClassO(HObj):
    __slots__ = ("name", "bases", "attrs", "module")
    kind = "class"

    def __init__(self, name, bases, attrs, module=None):
        self.name, self.bases, self.attrs, self.module, self.owner = name, bases, attrs, module, None

    def clone(self):
        return ClassO(self.name, self.bases, dict(self.attrs), self.module)


class ModuleO(HObj):
    __slots__ = ("name", "attrs")
    kind = "module"

    def __init__(self, name, attrs):
        self.name, self.attrs, self.owner = name, attrs, None

    def clone(self):
        return ModuleO(self.name, dict(self.attrs))


class CellO(HObj):
    __slots__ = ("v",)
    kind = "cell"

    def __init__(self, v):
        self.v, self.owner = v, None

    def clone(self):
        return CellO(self.v)


class IterO(HObj):
    """Iterator over a container value: how in seq, range, lin, call."""
    __slots__ = ("how", "src", "pos", "extra")
    kind = "iter"

    def __init__(self, how, src, pos, extra=None):
        self.how, self.src, self.pos, self.extra, self.owner = how, src, pos, extra, None

    def clone(self):
        return IterO(self.how, self.src, self.pos, self.extra)


class GenO(HObj):
    __slots__ = ("frame", "done", "running")
    kind = "gen"

    def __init__(self, frame):
        self.frame, self.done, self.running, self.owner = frame, False, False, None

    def clone(self):
        g = GenO(self.frame.clone() if self.frame is not None else None)
        g.done = self.done
        g.running = self.running
        return g


class NativeO(HObj):
    """Harness-defined object: handlers given by a Python class instance."""
    __slots__ = ("impl", "data")
    kind = "native"

    def __init__(self, impl, data=None):
        self.impl, self.data, self.owner = impl, data if data is not None else {}, None

    def clone(self):
        return NativeO(self.impl, dict(self.data))


# ---- immutable values ---------------------------------------------------

class FuncV(object):
    __slots__ = ("code", "globals", "defaults", "kwdefaults", "closure", "name", "qualname", "attrs")

    def __init__(self, code, globals, defaults, kwdefaults, closure):
        self.code, self.globals, self.defaults, self.kwdefaults, self.closure = code, globals, defaults, kwdefaults, closure
        self.name = code.co_name
        self.qualname = code.co_qualname
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qualname


class BuiltinV(object):
    __slots__ = ("name", "impl")

    def __init__(self, name, impl):
        self.name, self.impl = name, impl

    def __repr__(self):
        return "<builtin %s>" % self.name


class TypeV(object):
    __slots__ = ("name", "impl", "bases")

    def __init__(self, name, impl, bases=()):
        self.name, self.impl, self.bases = name, impl, bases

    def __repr__(self):
        return "<type %s>" % self.name


class BoundV(object):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.self is self.self

    def __hash__(self):
        return hash(id(self.func))


class RangeV(object):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return "range(%r, %r, %r)" % (self.start, self.stop, self.step)


class SliceV(object):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step


class ClassMethodV(object):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class StaticMethodV(object):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class PropertyV(object):
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class PartialV(object):
    __slots__ = ("func", "args", "kw")

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class GetterV(object):
    """operator.attrgetter / itemgetter"""
    __slots__ = ("how", "keys")

    def __init__(self, how, keys):
        self.how, self.keys = how, keys


class FrozenV(object):
    """An immutable aggregate with a tag (bytes regions, match objects...)."""
    __slots__ = ("tag", "data")

    def __init__(self, tag, data):
        self.tag, self.data = tag, data

    def __repr__(self):
        return "<%s %r>" % (self.tag, self.data)

    def __eq__(self, o):
        return isinstance(o, FrozenV) and o.tag == self.tag and o.data == self.data

    def __hash__(self):
        return hash((self.tag, self.data))


class ExcV(object):
    """An exception instance of a builtin class."""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%r" % (self.cls, self.args)


class SStr(object):
    """A string known as a sequence of pieces: literal text, ('chr', n),
    ('fmt', n, spec) or ('sym', name, ...)."""
    __slots__ = ("pieces", "_h")

    def __init__(self, pieces):
        self.pieces = pieces
        self._h = hash(pieces)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, SStr) and o.pieces == self.pieces

    def __repr__(self):
        return "s'%s'" % "".join(p if isinstance(p, str) else "{%s}" % (", ".join(show(x) if isinstance(x, Lin) else str(x) for x in p)) for p in self.pieces)


def mkstr(pieces):
    out = []
    for p in pieces:
        if isinstance(p, SStr):
            sub_ = p.pieces
        else:
            sub_ = (p,)
        for q in sub_:
            if isinstance(q, tuple) and q[0] == "chr":
                n = unlin(q[1])
                if isinstance(n, int) and 0 <= n < 0x110000:
                    q = chr(n)
            elif isinstance(q, tuple) and q[0] == "fmt":
                n = unlin(q[1])
                if isinstance(n, (int, str)):
                    try:
                        q = format(n, q[2])
                    except ValueError:
                        raise PyRaise(ExcV("ValueError"))
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


EXC_BASES = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "ValueError": "Exception", "TypeError": "Exception",
    "AttributeError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "StopIteration": "Exception", "AssertionError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "FileNotFoundError": "OSError", "ImportError": "Exception", "UnicodeError": "ValueError",
    "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "RecursionError": "RuntimeError", "EOFError": "Exception", "ModuleNotFoundError": "ImportError",
    "Warning": "Exception", "DeprecationWarning": "Warning", "UserWarning": "Warning", "StructError": "Exception",
}


def exc_is(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_BASES.get(name)
    return False


# ---- code ---------------------------------------------------------------

class CodeInfo(object):
    __slots__ = ("code", "instrs", "off2idx", "exc", "nlocalsplus", "names", "gen", "heads")


_codes = {}


def codeinfo(code):
    ci = _codes.get(code)
    if ci is not None:
        return ci
    ci = CodeInfo()
    ci.code = code
    instrs = []
    off2idx = {}
    pend = []
    for i in dis.get_instructions(code):
        if i.opname in ("EXTENDED_ARG", "CACHE"):
            pend.append(i.offset)
            continue
        for o in pend:
            off2idx[o] = len(instrs)
        pend = []
        off2idx[i.offset] = len(instrs)
        line = i.positions.lineno if i.positions else None
        instrs.append([i.opname, i.arg, i.argval, line, i.offset])
    ci.instrs = instrs
    ci.off2idx = off2idx
    jumps = {dis.opmap[n] for n in dis.opmap if "JUMP" in n or n in ("FOR_ITER", "SEND")}
    heads = set()
    for ins in instrs:
        if ("JUMP" in ins[0]) or ins[0] in ("FOR_ITER", "SEND"):
            t = off2idx[ins[2]]
            ins[2] = t
            if ins[0].startswith("JUMP_BACKWARD"):
                heads.add(t)
    ci.heads = heads
    table = []
    for e in dis._parse_exception_table(code):
        table.append((e.start, e.end, e.target, e.depth, e.lasti))
    ci.exc = table
    ci.nlocalsplus = len(code.co_varnames) + len([c for c in code.co_cellvars if c not in code.co_varnames]) + len(code.co_freevars)
    ci.names = list(code.co_varnames) + [c for c in code.co_cellvars if c not in code.co_varnames] + list(code.co_freevars)
    ci.gen = bool(code.co_flags & 0x20)
    _codes[code] = ci
    return ci


class Frame(object):
    __slots__ = ("ci", "pc", "locals", "stack", "globals", "names", "on_ret", "func", "kwnames", "line", "counts")

    def __init__(self, ci, globals, func=None):
        self.ci = ci
        self.pc = 0
        self.locals = [UNSET] * ci.nlocalsplus
        self.stack = []
        self.globals = globals
        self.names = None         # Ref of namespace (module) or dict for class bodies
        self.on_ret = None
        self.func = func
        self.kwnames = ()
        self.line = None
        self.counts = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.ci, f.pc, f.locals, f.stack = self.ci, self.pc, self.locals[:], self.stack[:]
        f.globals, f.on_ret, f.func, f.kwnames, f.line = self.globals, self.on_ret, self.func, self.kwnames, self.line
        f.names = dict(self.names) if isinstance(self.names, dict) else self.names
        f.counts = dict(self.counts) if self.counts else None
        return f


class State(object):
    __slots__ = ("frames", "heap", "base", "facts", "forced", "trace", "status", "result", "events", "ghost",
                 "token", "steps", "vm", "wlog")

    def __init__(self, vm, facts):
        self.vm = vm
        self.frames = []
        self.heap = {}
        self.base = vm.base
        self.facts = facts
        self.forced = {}
        self.trace = None
        self.status = "run"
        self.result = None
        self.events = None
        self.ghost = {}
        self.token = object()
        self.steps = 0
        self.wlog = None                # ids of the objects written to, while a loop is watched

    def clone(self):
        s = State.__new__(State)
        s.vm = self.vm
        s.frames = [f.clone() for f in self.frames]
        s.heap = dict(self.heap)
        s.base = self.base
        s.facts = self.facts
        s.forced = dict(self.forced)
        s.trace = self.trace
        s.status = self.status
        s.result = self.result
        s.events = self.events
        s.ghost = dict(self.ghost)
        s.token = object()
        self.token = object()
        s.steps = self.steps
        s.wlog = None if self.wlog is None else set(self.wlog)
        return s

    # heap
    def alloc(self, obj):
        r = fresh_ref()
        obj.owner = self.token
        self.heap[r.id] = obj
        return r

    def has(self, ref):
        return ref.id in self.heap or ref.id in self.base

    def get(self, ref):
        o = self.heap.get(ref.id)
        if o is None:
            o = self.base[ref.id]
        return o

    def mut(self, ref, what="write"):
        if self.wlog is not None:
            self.wlog.add(ref.id)
        o = self.heap.get(ref.id)
        if o is None:
            o = self.base[ref.id]
            if self.vm.effect_log is not None:
                self.vm.effect(self, ref, what)
        elif o.owner is self.token:
            return o
        n = o.clone()
        n.owner = self.token
        self.heap[ref.id] = n
        return n

    # decisions
    def decide(self, x, rel):
        r = self.facts.decide(x, rel)
        if r is None:
            r = self.forced.get((x, rel))
            if r is None:
                raise NeedFork(x, rel)
        return r

    def event(self, e):
        self.events = (e, self.events)

    def event_list(self):
        out = []
        e = self.events
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out

    def trace_list(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    def where(self):
        for f in reversed(self.frames):
            fn = f.ci.code.co_filename
            if not fn.startswith("<"):
                return "%s:%s %s" % (fn, f.line, f.ci.code.co_qualname)
        return "?"


def neg(x):
    return scale(x, -1)


class VM(object):
    def __init__(self):
        self.base = {}
        self.modules = {}
        self.effect_log = None
        self.tolerant = False
        self.eq3 = False              # split equality into <, ==, >
        self.max_paths = 20000
        self.max_steps = 4000000
        self.back_edge = None         # hook(st, frame, target) -> list of states or None
        self.loop_cap = 5000
        self.nsteps = 0
        self.deadline = None
        self.loader = None
        self.files = None             # {path: contents} seen by open()
        self.call_hook = None         # hook(st, func, args, kw) -> value or NotImplemented
        self.covered = set()          # (filename, qualname) analysed
        from . import builtins_ as B
        self.B = B
        B.init(self)

    def effect(self, st, ref, what):
        self.effect_log.append((st.where(), ref, what))

    # ---------------------------------------------------------------- run
    def explore(self, st, sink=None):
        """All leaves (status 'ret' or 'raise') reachable from st.  With a sink every leaf is handed to it
        as soon as it is reached, and exploring ends when it answers True."""
        work = [st]
        leaves = []
        broken = None
        while work:
            s = work.pop()
            try:
                out = self.run(s)
            except Unsupported as e:
                e.leaves = leaves
                if self.tolerant or self.deadline is not None and time.time() > self.deadline:
                    raise
                if broken is None:
                    broken, limit = e, (len(leaves) + 100, time.time() + 20)
                continue
            if broken is not None and (len(leaves) > limit[0] or time.time() > limit[1]):
                raise broken
            for t in out:
                if t.status == "run":
                    work.append(t)
                else:
                    leaves.append(t)
                    if sink is not None and sink(t):
                        return leaves
                    if sink is not None:
                        leaves[-1] = None
            if len(leaves) + len(work) > self.max_paths:
                e = Unsupported("path budget exhausted at %s" % s.where())
                e.leaves = leaves
                raise e
        if broken is not None:
            raise broken
        return leaves

    def run(self, st):
        """Run until the state finishes, or forks; returns successor states."""
        while True:
            if not st.frames:
                if st.status == "run":
                    st.status = "ret"
                return [st]
            f = st.frames[-1]
            n = len(st.frames)
            pc = f.pc
            ins = f.ci.instrs[pc]
            if ins[3] is not None:
                f.line = ins[3]
            saved = f.stack[:]
            kw = f.kwnames
            self.nsteps += 1
            st.steps += 1
            if not self.nsteps & 0xFFF and self.deadline is not None and time.time() > self.deadline:
                raise Unsupported("out of time at %s" % st.where())
            if st.steps > self.max_steps:
                raise Unsupported("step budget exhausted at %s" % st.where())
            try:
                f.pc = pc + 1
                r = OPS[ins[0]](self, st, f, ins)
            except NeedFork as e:
                f.pc = pc
                f.stack = saved
                f.kwnames = kw
                del st.frames[n - 1:]
                st.frames.append(f)
                return self.fork(st, e)
            except PyRaise as e:
                del st.frames[n:]
                here = bool(st.frames) and st.frames[-1] is f
                if here:
                    f.pc = pc
                self.raise_(st, e.exc, here)
                if st.status != "run":
                    return [st]
                continue
            except Unsupported as e:
                if not self.tolerant:
                    raise
                # while building namespaces: the value is unknown
                del st.frames[n - 1:]
                st.frames.append(f)
                f.stack = saved
                f.pc = pc + 1
                while st.frames and not (st.frames[-1].names is not None):
                    f = st.frames.pop()
                    fresh = False
                if f.names is None:
                    st.frames[-1].stack.append(Unk("unsupported: %s" % e))
                else:
                    eff = dis.stack_effect(dis.opmap[ins[0]], ins[1] if ins[0] not in ("RESUME",) else 0, jump=False)
                    k = 1 - eff
                    if k > 0:
                        del f.stack[len(f.stack) - k:]
                    f.stack.append(Unk("unsupported: %s" % e))
                continue
            except KeyError as e:
                if e.args and e.args[0] == ins[0] and ins[0] not in OPS:
                    raise Unsupported("opcode %s at %s" % (ins[0], st.where()))
                raise
            if r is not None:
                return r

    def fork(self, st, e):
        x, rel = e.x, e.rel
        outs = []
        where = (st.where(), x, rel)
        if rel == "<":
            cases = [("<", x, True), (">=", x, False)]
        elif self.eq3:
            cases = [("==", x, True), ("<", x, False), ("<", neg(x), False)]
        else:
            cases = [("==", x, True), ("!=", x, False)]
        for (r, y, val) in cases:
            nf = st.facts.assume(y, r)
            if nf is None:
                continue
            if nf is st.facts:
                nf = nf.copy()
            nf._dec[(x, rel)] = val
            s = st.clone()
            s.facts = nf
            s.forced[(x, rel)] = val
            s.trace = ((where[0], x, r if y is x else ">"), st.trace)
            outs.append(s)
        outs.reverse()
        return outs

    # ---------------------------------------------------------------- calls
    def push_call(self, st, func, args, kwargs, on_ret):
        """Start a call; either returns a value, or PUSHED."""
        if isinstance(func, BoundV):
            return self.push_call(st, func.func, (func.self,) + tuple(args), kwargs, on_ret)
        if self.call_hook is not None:
            r = self.call_hook(st, func, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(func, FuncV):
            fr = self.make_frame(st, func, args, kwargs)
            fr.on_ret = on_ret
            if len(st.frames) > 150:
                raise Unsupported("call depth at %s" % st.where())
            st.frames.append(fr)
            return PUSHED
        if isinstance(func, (BuiltinV, TypeV)):
            r = func.impl(self, st, tuple(args), kwargs)
            if isinstance(r, CallLater):
                return self.push_call(st, r.func, r.args, r.kwargs, r.wrap(on_ret))
            return r
        if isinstance(func, Ref):
            o = st.get(func)
            if o.kind == "class":
                return self.instantiate(st, func, o, args, kwargs, on_ret)
            if o.kind == "inst":
                m = self.lookup_type_attr(st, o.cls, "__call__")
                if m is not None:
                    return self.push_call(st, m, (func,) + tuple(args), kwargs, on_ret)
            if o.kind == "native":
                return o.impl.call(self, st, func, o, args, kwargs)
        if isinstance(func, PartialV):
            kw = dict(func.kw)
            kw.update(kwargs or {})
            return self.push_call(st, func.func, tuple(func.args) + tuple(args), kw, on_ret)
        if isinstance(func, GetterV):
            if func.how == "attr":
                return self.getattr(st, args[0], func.keys[0])
            if len(func.keys) == 1:
                return self.B.getitem(self, st, args[0], func.keys[0])
            return tuple(self.B.getitem(self, st, args[0], k) for k in func.keys)
        if isinstance(func, StaticMethodV):
            return self.push_call(st, func.f, args, kwargs, on_ret)
        if isinstance(func, Unk):
            if self.tolerant:
                return Unk(func.tag)
            raise Unsupported("call of unknown %s at %s" % (func.tag, st.where()))
        raise PyRaise(ExcV("TypeError", ("not callable: %r" % (func,),)))

    def make_frame(self, st, func, args, kwargs):
        code = func.code
        ci = codeinfo(code)
        self.covered.add((code.co_filename, code.co_qualname))
        fr = Frame(ci, func.globals, func)
        na, nk = code.co_argcount, code.co_kwonlyargcount
        names = code.co_varnames
        loc = fr.locals
        args = tuple(args)
        kwargs = dict(kwargs) if kwargs else {}
        varargs = bool(code.co_flags & 0x04)
        varkw = bool(code.co_flags & 0x08)
        for i, v in enumerate(args[:na]):
            loc[i] = v
        if len(args) > na:
            if not varargs:
                raise PyRaise(ExcV("TypeError", ("%s() takes %d positional arguments but %d were given" % (func.name, na, len(args)),)))
        if varargs:
            loc[na + nk] = args[na:]
        extra = {}
        pos = code.co_posonlyargcount
        for k, v in kwargs.items():
            if k in names[pos:na + nk]:
                i = names.index(k)
                if loc[i] is not UNSET:
                    raise PyRaise(ExcV("TypeError", ("multiple values for %s" % k,)))
                loc[i] = v
            elif varkw:
                extra[k] = v
            else:
                raise PyRaise(ExcV("TypeError", ("unexpected keyword %s" % k,)))
        if varkw:
            loc[na + nk + (1 if varargs else 0)] = st.alloc(DictO(extra))
        d = func.defaults or ()
        for i in range(na):
            if loc[i] is UNSET:
                j = i - (na - len(d))
                if j >= 0:
                    loc[i] = d[j]
                else:
                    raise PyRaise(ExcV("TypeError", ("%s() missing argument %s" % (func.name, names[i]),)))
        for i in range(na, na + nk):
            if loc[i] is UNSET:
                if func.kwdefaults and names[i] in func.kwdefaults:
                    loc[i] = func.kwdefaults[names[i]]
                else:
                    raise PyRaise(ExcV("TypeError", ("missing keyword %s" % names[i],)))
        return fr

    def instantiate(self, st, cref, cls, args, kwargs, on_ret):
        if self.is_exc_class(st, cref):
            return ExcV(cref, tuple(args))
        if self.call_hook is not None:
            r = self.call_hook(st, cref, args, kwargs)
            if r is not NotImplemented:
                return r
        fields = self.lookup_type_attr(st, cref, "__nt_fields__")
        if fields is not None:
            vals = dict(zip(fields, args))
            vals.update(kwargs or {})
            return st.alloc(InstO(cref, {k: vals[k] for k in fields}))
        inst = st.alloc(InstO(cref))
        init = self.lookup_type_attr(st, cref, "__init__")
        if init is None or isinstance(init, BuiltinV):
            return inst
        r = self.push_call(st, init, (inst,) + tuple(args), kwargs, ("init", inst, on_ret))
        if r is PUSHED:
            return PUSHED
        return inst

    def is_exc_class(self, st, cref):
        for c in self.mro(st, cref):
            if isinstance(c, TypeV) and c.name in EXC_BASES:
                return True
        return False

    def mro(self, st, cref):
        out = []
        if isinstance(cref, Ref):
            o = st.get(cref)
            if o.kind == "class":
                out.append(cref)
                for b in o.bases:
                    for m in self.mro(st, b):
                        if m not in out:
                            out.append(m)
        else:
            out.append(cref)
        return out

    def lookup_type_attr(self, st, cref, name):
        for c in self.mro(st, cref):
            if isinstance(c, Ref):
                o = st.get(c)
                if name in o.attrs:
                    return o.attrs[name]
        return None

    def finish_value(self, st, on_ret, v):
        """Deliver a value to the frame below according to on_ret."""
        if on_ret is None or on_ret == "top":
            if st.frames:
                st.frames[-1].stack.append(v)
            else:
                st.status = "ret"
                st.result = v
            return
        if callable(on_ret):
            on_ret(self, st, v)
            return
        kind = on_ret[0]
        if kind == "init":
            self.finish_value(st, on_ret[2], on_ret[1])
        elif kind == "discard":
            pass
        elif kind == "not":
            self.finish_value(st, on_ret[1], not self.B.truth(self, st, v))
        elif kind == "bool":
            self.finish_value(st, on_ret[1], self.B.truth(self, st, v))
        elif kind == "class":
            pass
        elif kind == "then":
            r = on_ret[1](self, st, v)
            if isinstance(r, CallLater):
                r2 = self.push_call(st, r.func, r.args, r.kwargs, r.wrap(on_ret[2]))
                if r2 is not PUSHED:
                    self.finish_value(st, on_ret[2], r2)
            else:
                self.finish_value(st, on_ret[2], r)
        else:
            raise Unsupported("on_ret %r" % (on_ret,))

    # ---------------------------------------------------------------- raise
    def raise_(self, st, exc, first=True):
        """Unwind to a handler in the current frames."""
        while st.frames:
            f = st.frames[-1]
            off = f.ci.instrs[f.pc if first else f.pc - 1][4]
            first = False
            h = None
            for (s, e, t, d, lasti) in f.ci.exc:
                if s <= off < e:
                    h = (t, d, lasti)
            if h is not None:
                t, d, lasti = h
                del f.stack[d:]
                if lasti:
                    f.stack.append(0)
                f.stack.append(exc)
                f.pc = f.ci.off2idx[t]
                return
            st.frames.pop()
            if self.tolerant and len(st.frames) >= 1 and f.on_ret != "import":
                # a failing nested call while loading a module: unknown result
                while len(st.frames) > 1 and st.frames[-1].names is None:
                    f = st.frames.pop()
                orr = f.on_ret
                if not st.frames:
                    break
                if f.on_ret == "import":
                    f = st.frames[-1]
                    continue
                self.finish_value(st, None, Unk("exception"))
                return
            orr = f.on_ret
            if isinstance(orr, tuple) and orr[0] == "gen":
                g = st.mut(orr[1])
                g.done = True
                g.frame = None
                g.running = False
            if orr == "top" or not st.frames:
                st.status = "raise"
                st.result = exc
                st.frames = []
                return
        st.status = "raise"
        st.result = exc

    # ---------------------------------------------------------------- attrs
    def getattr(self, st, v, name, default=NULL):
        r = self._getattr(st, v, name)
        if r is NULL:
            if default is not NULL:
                return default
            if isinstance(v, Ref) and st.get(v).kind == "inst":
                m = self.lookup_type_attr(st, st.get(v).cls, "__getattr__")
                if m is not None:
                    return CallLater(m, (v, name))
            raise PyRaise(ExcV("AttributeError", (name,)))
        return r

    def _bind(self, st, a, inst, cref):
        if isinstance(a, FuncV):
            return BoundV(a, inst)
        if isinstance(a, ClassMethodV):
            return BoundV(a.f, cref)
        if isinstance(a, StaticMethodV):
            return a.f
        if isinstance(a, PropertyV):
            return CallLater(a.fget, (inst,))
        return a

    def _getattr(self, st, v, name):
        if isinstance(v, Ref):
            o = st.get(v)
            k = o.kind
            if k == "inst":
                if name in o.attrs:
                    return o.attrs[name]
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return st.alloc(DictO(dict(o.attrs)))
                a = self.lookup_type_attr(st, o.cls, name)
                if a is None:
                    return self.B.object_attr(self, st, v, name)
                return self._bind(st, a, v, o.cls)
            if k == "class":
                for c in self.mro(st, v):
                    if isinstance(c, Ref):
                        oo = st.get(c)
                        if name in oo.attrs:
                            a = oo.attrs[name]
                            if isinstance(a, ClassMethodV):
                                return BoundV(a.f, v)
                            if isinstance(a, StaticMethodV):
                                return a.f
                            return a
                if name == "__name__" or name == "__qualname__":
                    return o.name
                if name == "__dict__":
                    return st.alloc(DictO(dict(o.attrs)))
                if name == "__module__":
                    return o.module
                return self.B.object_attr(self, st, v, name)
            if k == "module":
                if name in o.attrs:
                    return o.attrs[name]
                if self.loader is not None and self.loader.known(o.name + "." + name):
                    full = o.name + "." + name
                    return self.modules.get(full) or self.loader.library(self, st, full)
                if o.name in self.B.OPAQUE_MODULES:
                    return Unk(o.name + "." + name)
                sub_ = self.loader and self.loader.submodule(st, o.name, name)
                if sub_:
                    return sub_
                return NULL
            if k == "native":
                return o.impl.getattr(self, st, v, o, name)
            return self.B.method(self, st, v, o, name)
        if isinstance(v, Unk):
            if self.tolerant:
                return Unk(v.tag + "." + name)
            raise Unsupported("attribute %s of unknown %s at %s" % (name, v.tag, st.where()))
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name == "__name__":
                return v.name
            if name == "__doc__":
                return None
            if name == "__wrapped__":
                return NULL
            return NULL
        return self.B.value_attr(self, st, v, name)

    def setattr(self, st, v, name, val):
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == "inst":
                a = self.lookup_type_attr(st, o.cls, name)
                if isinstance(a, PropertyV):
                    if a.fset is None:
                        raise PyRaise(ExcV("AttributeError", (name,)))
                    return CallLater(a.fset, (v, val))
                st.mut(v, "attr " + name).attrs[name] = val
                return
            if o.kind in ("class", "module"):
                st.mut(v, "attr " + name).attrs[name] = val
                return
            if o.kind == "native":
                o.impl.setattr(self, st, v, o, name, val)
                return
        if isinstance(v, FuncV):
            v.attrs[name] = val
            return
        if isinstance(v, Unk) and self.tolerant:
            return
        raise Unsupported("setattr %s on %r at %s" % (name, v, st.where()))


class CallLater(object):
    """Returned by a native handler that needs an interpreted call to finish."""

    def __init__(self, func, args, kwargs=None, then=None):
        self.func, self.args, self.kwargs, self.then = func, args, kwargs or {}, then

    def wrap(self, on_ret):
        if self.then is None:
            return on_ret
        return ("then", self.then, on_ret)


# ======================================================================= ops
OPS = {}


def opcode(*names):
    def deco(fn):
        for n in names:
            OPS[n] = fn
        return fn
    return deco


def deliver(vm, st, f, r, on_ret=None):
    """Push result r of a native operation on the current frame (which may be CallLater)."""
    if isinstance(r, CallLater):
        r = vm.push_call(st, r.func, r.args, r.kwargs, r.wrap(on_ret))
    if r is PUSHED:
        return
    vm.finish_value(st, on_ret, r)


@opcode("RESUME", "NOP", "PRECALL", "CACHE")
def _(vm, st, f, i):
    pass


@opcode("POP_TOP")
def _(vm, st, f, i):
    f.stack.pop()


@opcode("PUSH_NULL")
def _(vm, st, f, i):
    f.stack.append(NULL)


@opcode("COPY")
def _(vm, st, f, i):
    f.stack.append(f.stack[-i[1]])


@opcode("SWAP")
def _(vm, st, f, i):
    n = i[1]
    f.stack[-1], f.stack[-n] = f.stack[-n], f.stack[-1]


@opcode("LOAD_CONST")
def _(vm, st, f, i):
    v = i[2]
    if isinstance(v, frozenset):
        v = st.alloc(SetO({x: None for x in sorted(v, key=repr)}))
    f.stack.append(v)


@opcode("RETURN_CONST")
def _(vm, st, f, i):
    return do_return(vm, st, f, i[2])


@opcode("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_CLOSURE")
def _(vm, st, f, i):
    v = f.locals[i[1]]
    if v is UNSET:
        raise PyRaise(ExcV("UnboundLocalError", (i[2],)))
    f.stack.append(v)


@opcode("LOAD_FAST_AND_CLEAR")
def _(vm, st, f, i):
    f.stack.append(f.locals[i[1]])
    f.locals[i[1]] = UNSET


@opcode("STORE_FAST", "STORE_FAST_MAYBE_NULL")
def _(vm, st, f, i):
    f.locals[i[1]] = f.stack.pop()


@opcode("DELETE_FAST")
def _(vm, st, f, i):
    f.locals[i[1]] = UNSET


@opcode("MAKE_CELL")
def _(vm, st, f, i):
    f.locals[i[1]] = st.alloc(CellO(f.locals[i[1]]))


@opcode("COPY_FREE_VARS")
def _(vm, st, f, i):
    n = i[1]
    base = len(f.locals) - n
    for k in range(n):
        f.locals[base + k] = f.func.closure[k]


@opcode("LOAD_DEREF")
def _(vm, st, f, i):
    v = st.get(f.locals[i[1]]).v
    if v is UNSET:
        raise PyRaise(ExcV("NameError", (i[2],)))
    f.stack.append(v)


@opcode("STORE_DEREF")
def _(vm, st, f, i):
    st.mut(f.locals[i[1]]).v = f.stack.pop()


@opcode("DELETE_DEREF")
def _(vm, st, f, i):
    st.mut(f.locals[i[1]]).v = UNSET


@opcode("LOAD_FROM_DICT_OR_DEREF")
def _(vm, st, f, i):
    d = f.stack.pop()
    if isinstance(f.names, dict) and i[2] in f.names:
        f.stack.append(f.names[i[2]])
    else:
        f.stack.append(st.get(f.locals[i[1]]).v)


@opcode("LOAD_LOCALS")
def _(vm, st, f, i):
    f.stack.append(Unk("locals"))


def load_global(vm, st, f, name):
    g = st.get(f.globals).attrs
    if name in g:
        return g[name]
    b = vm.B.BUILTINS.get(name)
    if b is None:
        if name == "__name__":
            return st.get(f.globals).name
        if name == "__debug__":
            return True
        if name in ("None", "True", "False"):
            return {"None": None, "True": True, "False": False}[name]
        if vm.tolerant:
            return Unk(name)
        raise PyRaise(ExcV("NameError", (name,)))
    return b


@opcode("LOAD_GLOBAL")
def _(vm, st, f, i):
    if i[1] & 1:
        f.stack.append(NULL)
    f.stack.append(load_global(vm, st, f, i[2]))


@opcode("STORE_GLOBAL")
def _(vm, st, f, i):
    v = f.stack.pop()
    st.mut(f.globals, "global " + i[2]).attrs[i[2]] = v


@opcode("LOAD_NAME")
def _(vm, st, f, i):
    n = i[2]
    if isinstance(f.names, dict):
        if n in f.names:
            f.stack.append(f.names[n])
            return
    f.stack.append(load_global(vm, st, f, n))


@opcode("STORE_NAME")
def _(vm, st, f, i):
    v = f.stack.pop()
    if isinstance(f.names, dict):
        f.names[i[2]] = v
    else:
        st.mut(f.globals, "global " + i[2]).attrs[i[2]] = v
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == "list" and vm.loader is not None:
                vm.loader.name_table(st, f, i[2], v, o)


@opcode("DELETE_NAME")
def _(vm, st, f, i):
    if isinstance(f.names, dict):
        f.names.pop(i[2], None)
    else:
        st.mut(f.globals, "global " + i[2]).attrs.pop(i[2], None)


@opcode("DELETE_GLOBAL")
def _(vm, st, f, i):
    st.mut(f.globals, "global " + i[2]).attrs.pop(i[2], None)


@opcode("SETUP_ANNOTATIONS")
def _(vm, st, f, i):
    if isinstance(f.names, dict):
        f.names.setdefault("__annotations__", st.alloc(DictO({})))
    else:
        st.mut(f.globals).attrs.setdefault("__annotations__", st.alloc(DictO({})))


@opcode("LOAD_ATTR")
def _(vm, st, f, i):
    o = f.stack.pop()
    if i[1] & 1:
        a = vm.getattr(st, o, i[2])
        if isinstance(a, BoundV):
            f.stack.append(a.func)
            f.stack.append(a.self)
        elif isinstance(a, CallLater):
            f.stack.append(NULL)
            deliver(vm, st, f, a)
        else:
            f.stack.append(NULL)
            f.stack.append(a)
    else:
        deliver(vm, st, f, vm.getattr(st, o, i[2]))


@opcode("LOAD_SUPER_ATTR")
def _(vm, st, f, i):
    self_ = f.stack.pop()
    cls = f.stack.pop()
    f.stack.pop()
    inst_cls = st.get(self_).cls if isinstance(self_, Ref) and st.get(self_).kind == "inst" else self_
    mro = vm.mro(st, inst_cls)
    k = mro.index(cls)
    a = NULL
    for c in mro[k + 1:]:
        if isinstance(c, Ref) and i[2] in st.get(c).attrs:
            a = vm._bind(st, st.get(c).attrs[i[2]], self_, inst_cls)
            break
    if a is NULL:
        if i[2] == "__init__":
            a = BuiltinV("object.__init__", lambda vm, st, a, k: None)
        else:
            raise PyRaise(ExcV("AttributeError", (i[2],)))
    if i[1] & 1:
        if isinstance(a, BoundV):
            f.stack.append(a.func)
            f.stack.append(a.self)
        else:
            f.stack.append(NULL)
            f.stack.append(a)
    else:
        deliver(vm, st, f, a)


@opcode("STORE_ATTR")
def _(vm, st, f, i):
    o = f.stack.pop()
    v = f.stack.pop()
    r = vm.setattr(st, o, i[2], v)
    if isinstance(r, CallLater):
        r = vm.push_call(st, r.func, r.args, r.kwargs, ("discard",))


@opcode("DELETE_ATTR")
def _(vm, st, f, i):
    o = f.stack.pop()
    if isinstance(o, Ref) and st.get(o).kind in ("inst", "class"):
        if i[2] not in st.get(o).attrs:
            raise PyRaise(ExcV("AttributeError", (i[2],)))
        st.mut(o, "del attr " + i[2]).attrs.pop(i[2])
        return
    raise Unsupported("del attr")


# ---- containers

@opcode("BUILD_TUPLE")
def _(vm, st, f, i):
    n = i[1]
    v = tuple(f.stack[len(f.stack) - n:])
    del f.stack[len(f.stack) - n:]
    f.stack.append(v)


@opcode("BUILD_LIST")
def _(vm, st, f, i):
    n = i[1]
    v = f.stack[len(f.stack) - n:]
    del f.stack[len(f.stack) - n:]
    f.stack.append(st.alloc(ListO(v)))


@opcode("BUILD_SET")
def _(vm, st, f, i):
    n = i[1]
    v = f.stack[len(f.stack) - n:]
    del f.stack[len(f.stack) - n:]
    r = {}
    vm.B.set_merge(vm, st, r, v)
    f.stack.append(st.alloc(SetO(r)))


@opcode("BUILD_MAP")
def _(vm, st, f, i):
    n = 2 * i[1]
    v = f.stack[len(f.stack) - n:]
    del f.stack[len(f.stack) - n:]
    r = {}
    for k, x in zip(v[::2], v[1::2]):
        vm.B.dict_merge(vm, st, r, {k: x})
    f.stack.append(st.alloc(DictO(r)))


@opcode("BUILD_CONST_KEY_MAP")
def _(vm, st, f, i):
    keys = f.stack.pop()
    n = i[1]
    v = f.stack[len(f.stack) - n:]
    del f.stack[len(f.stack) - n:]
    f.stack.append(st.alloc(DictO(dict(zip(keys, v)))))


@opcode("BUILD_SLICE")
def _(vm, st, f, i):
    if i[1] == 3:
        step = f.stack.pop()
    else:
        step = None
    stop = f.stack.pop()
    start = f.stack.pop()
    f.stack.append(SliceV(start, stop, step))


@opcode("BUILD_STRING")
def _(vm, st, f, i):
    n = i[1]
    v = f.stack[len(f.stack) - n:]
    del f.stack[len(f.stack) - n:]
    if any(isinstance(x, Unk) for x in v):
        f.stack.append(Unk("str"))
    else:
        f.stack.append(mkstr(v))


def hashkey(k):
    if isinstance(k, Lin):
        raise Unsupported("symbolic dictionary key")
    return k


@opcode("LIST_APPEND")
def _(vm, st, f, i):
    v = f.stack.pop()
    r = f.stack[-i[1]]
    vm.B.list_append(vm, st, r, v)


@opcode("SET_ADD")
def _(vm, st, f, i):
    v = f.stack.pop()
    vm.B.set_merge(vm, st, st.mut(f.stack[-i[1]]).s, [v])


@opcode("MAP_ADD")
def _(vm, st, f, i):
    v = f.stack.pop()
    k = f.stack.pop()
    vm.B.dict_merge(vm, st, st.mut(f.stack[-i[1]]).d, {k: v})


@opcode("LIST_EXTEND")
def _(vm, st, f, i):
    v = f.stack.pop()
    r = f.stack[-i[1]]
    deliver(vm, st, f, vm.B.list_extend(vm, st, r, v), ("discard",))


@opcode("SET_UPDATE")
def _(vm, st, f, i):
    v = f.stack.pop()
    r = f.stack[-i[1]]
    items = vm.B.concrete_items(vm, st, v)
    if items is None:
        raise Unsupported("set update")
    s = st.mut(r).s
    vm.B.set_merge(vm, st, s, items)


@opcode("DICT_UPDATE", "DICT_MERGE")
def _(vm, st, f, i):
    v = f.stack.pop()
    r = f.stack[-i[1]]
    if isinstance(v, Ref) and st.get(v).kind == "dict":
        st.mut(r).d.update(st.get(v).d)
    else:
        raise Unsupported("dict update")


@opcode("UNPACK_SEQUENCE")
def _(vm, st, f, i):
    n = i[1]
    v = f.stack[-1]
    if isinstance(v, Unk):
        f.stack.pop()
        f.stack.extend([Unk(v.tag)] * n)
        return
    items = vm.B.concrete_items(vm, st, v, n)
    if items is None:
        # general iterable
        f.stack.pop()

        def got(vm, st, r, n=n):
            its = st.get(r).items
            if len(its) != n:
                raise PyRaise(ExcV("ValueError", ("unpack",)))
            fr = st.frames[-1]
            fr.stack.extend(reversed(its))
        vm_r = vm.B.call_builtin(vm, st, "list", (v,))
        if isinstance(vm_r, CallLater):
            r = vm.push_call(st, vm_r.func, vm_r.args, vm_r.kwargs, vm_r.wrap(got))
            if r is not PUSHED:
                got(vm, st, r)
        else:
            got(vm, st, vm_r)
        return
    if len(items) != n:
        raise PyRaise(ExcV("ValueError", ("unpack",)))
    f.stack.pop()
    f.stack.extend(reversed(items))


@opcode("UNPACK_EX")
def _(vm, st, f, i):
    before, after = i[1] & 0xFF, i[1] >> 8
    v = f.stack.pop()
    items = vm.B.concrete_items(vm, st, v)
    if items is None:
        raise Unsupported("unpack ex")
    items = list(items)
    if len(items) < before + after:
        raise PyRaise(ExcV("ValueError", ("unpack",)))
    mid = items[before:len(items) - after]
    tail = items[len(items) - after:]
    f.stack.extend(reversed(tail))
    f.stack.append(st.alloc(ListO(mid)))
    f.stack.extend(reversed(items[:before]))


@opcode("BINARY_SUBSCR")
def _(vm, st, f, i):
    k = f.stack.pop()
    o = f.stack.pop()
    deliver(vm, st, f, vm.B.getitem(vm, st, o, k))


@opcode("BINARY_SLICE")
def _(vm, st, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    o = f.stack.pop()
    deliver(vm, st, f, vm.B.getitem(vm, st, o, SliceV(a, b)))


@opcode("STORE_SUBSCR")
def _(vm, st, f, i):
    k = f.stack.pop()
    o = f.stack.pop()
    v = f.stack.pop()
    deliver(vm, st, f, vm.B.setitem(vm, st, o, k, v), ("discard",))


@opcode("STORE_SLICE")
def _(vm, st, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    o = f.stack.pop()
    v = f.stack.pop()
    deliver(vm, st, f, vm.B.setitem(vm, st, o, SliceV(a, b), v), ("discard",))


@opcode("DELETE_SUBSCR")
def _(vm, st, f, i):
    k = f.stack.pop()
    o = f.stack.pop()
    deliver(vm, st, f, vm.B.delitem(vm, st, o, k), ("discard",))


# ---- operators

@opcode("BINARY_OP")
def _(vm, st, f, i):
    y = f.stack.pop()
    x = f.stack.pop()
    deliver(vm, st, f, vm.B.binary(vm, st, dis_op(i[1]), x, y))


_nb = [n for n in dis._nb_ops] if hasattr(dis, "_nb_ops") else None


def dis_op(k):
    return _nb[k][1]


@opcode("UNARY_NEGATIVE")
def _(vm, st, f, i):
    x = f.stack.pop()
    deliver(vm, st, f, vm.B.unary(vm, st, "-", x))


@opcode("UNARY_INVERT")
def _(vm, st, f, i):
    x = f.stack.pop()
    deliver(vm, st, f, vm.B.unary(vm, st, "~", x))


@opcode("UNARY_NOT")
def _(vm, st, f, i):
    x = f.stack.pop()
    t = vm.B.truth(vm, st, x)
    if isinstance(t, CallLater):
        deliver(vm, st, f, t, ("not", None))
    else:
        f.stack.append(not t)


@opcode("COMPARE_OP")
def _(vm, st, f, i):
    y = f.stack.pop()
    x = f.stack.pop()
    deliver(vm, st, f, vm.B.compare(vm, st, i[2], x, y))


@opcode("IS_OP")
def _(vm, st, f, i):
    y = f.stack.pop()
    x = f.stack.pop()
    r = vm.B.is_(vm, st, x, y)
    f.stack.append(r if i[1] == 0 else not r)


@opcode("CONTAINS_OP")
def _(vm, st, f, i):
    y = f.stack.pop()
    x = f.stack.pop()
    r = vm.B.contains(vm, st, y, x)
    if isinstance(r, CallLater):
        deliver(vm, st, f, r, ("not", None) if i[1] else ("bool", None))
    else:
        f.stack.append(r if i[1] == 0 else not r)


# ---- jumps

def jump_if(vm, st, f, i, want):
    v = f.stack[-1]
    t = vm.B.truth(vm, st, v)
    if isinstance(t, CallLater):
        f.stack.pop()
        f.pc -= 1                       # re-run this jump on the resulting bool
        deliver(vm, st, f, t, ("bool", None))
        return
    f.stack.pop()
    if t == want:
        f.pc = i[2]


@opcode("POP_JUMP_IF_FALSE")
def _(vm, st, f, i):
    jump_if(vm, st, f, i, False)


@opcode("POP_JUMP_IF_TRUE")
def _(vm, st, f, i):
    jump_if(vm, st, f, i, True)


@opcode("POP_JUMP_IF_NONE")
def _(vm, st, f, i):
    v = f.stack.pop()
    if isinstance(v, Unk):
        raise Unsupported("None test of unknown at %s" % st.where())
    if v is None:
        f.pc = i[2]


@opcode("POP_JUMP_IF_NOT_NONE")
def _(vm, st, f, i):
    v = f.stack.pop()
    if isinstance(v, Unk):
        raise Unsupported("None test of unknown at %s" % st.where())
    if v is not None:
        f.pc = i[2]


@opcode("JUMP_FORWARD")
def _(vm, st, f, i):
    f.pc = i[2]


def snapshot(st, f, since=0):
    """Everything the rest of a frame's run depends on, or None when that is not plain data."""
    seen = {}

    def go(v):
        if isinstance(v, Ref):
            if v.id in seen:
                return ("seen", seen[v.id])
            seen[v.id] = len(seen)
            o = st.get(v)
            if o.kind == "list":
                return ("l",) + tuple(go(x) for x in o.items)
            if o.kind == "inst":
                return ("i", v.id) + tuple((k, go(x)) for k, x in o.attrs.items())
            if o.kind == "dict":
                return ("d",) + tuple((go(k), go(x)) for k, x in o.d.items())
            return ("n", v.id)
        if isinstance(v, tuple) and any(isinstance(x, Ref) for x in v):
            return ("t",) + tuple(go(x) for x in v)
        hash(v)
        return v
    try:
        shot = tuple(go(v) for v in f.locals) + tuple(go(v) for v in f.stack)
    except TypeError:
        return None
    for i in st.wlog or ():             # what was written to and is not part of the picture
        if i <= since and (i not in seen or st.get(Ref(i)).kind not in ("list", "inst", "dict")):
            return None
    return shot


@opcode("JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT")
def _(vm, st, f, i):
    f.pc = i[2]
    if f.counts is None:
        f.counts = {}
    k = f.counts.get(i[2], 0) + 1
    f.counts[i[2]] = k
    if vm.back_edge is not None:
        r = vm.back_edge(st, f, i[2])
        if r is not None:
            return r
    if k >= 1024:
        low = k & (k - 1)
        if low == 0:
            st.wlog = set()
            f.counts[("snap", i[2])] = (snapshot(st, f), st.facts, k, Ref.n)
        elif k - f.counts.get(("snap", i[2]), (0, 0, 0))[2] <= 64:
            sn = f.counts[("snap", i[2])]
            if sn[1] is st.facts and sn[0] is not None and sn[0] == snapshot(st, f, sn[3]):
                raise PyRaise(ExcV("Diverges"))       # the same state again, nothing decided in between
    if k > vm.loop_cap:
        raise Unsupported("loop did not converge at %s" % st.where())


# ---- iteration

@opcode("GET_ITER")
def _(vm, st, f, i):
    v = f.stack.pop()
    deliver(vm, st, f, vm.B.get_iter(vm, st, v))


@opcode("FOR_ITER")
def _(vm, st, f, i):
    it = f.stack[-1]
    target = i[2]

    def on_end(vm, st):
        # 3.12: jump to END_FOR with iterator + NULL-like on the stack
        fr = st.frames[-1]
        fr.stack.append(NULL)
        fr.pc = target
    r = vm.B.next_(vm, st, it, on_end)
    if r is STOP:
        on_end(vm, st)
    elif r is PUSHED:
        pass
    else:
        f.stack.append(r)


STOP = _S("STOP")


@opcode("END_FOR")
def _(vm, st, f, i):
    f.stack.pop()
    f.stack.pop()


@opcode("GET_YIELD_FROM_ITER")
def _(vm, st, f, i):
    v = f.stack[-1]
    if isinstance(v, Ref) and st.get(v).kind == "gen":
        return
    f.stack.pop()
    deliver(vm, st, f, vm.B.get_iter(vm, st, v))


@opcode("SEND")
def _(vm, st, f, i):
    f.stack.pop()            # value sent (always None here)
    it = f.stack[-1]
    target = i[2]

    def on_end(vm, st):
        fr = st.frames[-1]
        fr.stack.append(None)
        fr.pc = target
    r = vm.B.next_(vm, st, it, on_end)
    if r is STOP:
        on_end(vm, st)
    elif r is not PUSHED:
        f.stack.append(r)


@opcode("END_SEND")
def _(vm, st, f, i):
    v = f.stack.pop()
    f.stack.pop()
    f.stack.append(v)


@opcode("RETURN_GENERATOR")
def _(vm, st, f, i):
    # turn this frame into a generator object
    fr = st.frames.pop()
    orr = fr.on_ret
    fr.on_ret = None
    fr.stack.append(None)       # value popped by the POP_TOP after RETURN_GENERATOR
    g = st.alloc(GenO(fr))
    vm.finish_value(st, orr, g)
    if not st.frames and st.status == "ret":
        return [st]


@opcode("YIELD_VALUE")
def _(vm, st, f, i):
    v = f.stack.pop()
    orr = f.on_ret
    if isinstance(orr, tuple) and orr[0] == "gentop":
        # harness-driven generator
        f.stack.append(None)
        return orr[1](vm, st, v)
    if not (isinstance(orr, tuple) and orr[0] == "gen"):
        raise Unsupported("yield outside a driven generator")
    st.frames.pop()
    g = st.mut(orr[1])
    f.stack.append(None)
    g.frame = f
    g.running = False
    nxt = orr[2]
    f.on_ret = None
    vm.finish_value(st, nxt, v)


def do_return(vm, st, f, v):
    st.frames.pop()
    orr = f.on_ret
    if isinstance(orr, tuple) and orr[0] == "gen":
        g = st.mut(orr[1])
        g.done = True
        g.running = False
        g.frame = None
        end = orr[3]
        end(vm, st)
        return
    if isinstance(orr, tuple) and orr[0] == "gentop":
        st.status = "ret"
        st.result = v
        st.frames = []
        return [st]
    if isinstance(orr, tuple) and orr[0] == "class":
        ns = f.names
        cell = v if isinstance(v, Ref) else None
        name, bases, module, nxt = orr[1:]
        attrs = {k: x for k, x in ns.items() if k not in ("__module__", "__qualname__", "__classcell__", "__annotations__")}
        attrs["__ann__"] = ns.get("__annotations__")
        c = st.alloc(ClassO(name, bases, attrs, module))
        cc = ns.get("__classcell__")
        if isinstance(cc, Ref):
            st.mut(cc).v = c
        vm.B.class_created(vm, st, c)
        vm.finish_value(st, nxt, c)
        return
    if orr == "import":
        return
    vm.finish_value(st, orr, v)
    if not st.frames:
        return [st]


@opcode("RETURN_VALUE")
def _(vm, st, f, i):
    v = f.stack.pop()
    return do_return(vm, st, f, v)


# ---- calls

@opcode("KW_NAMES")
def _(vm, st, f, i):
    f.kwnames = f.ci.code.co_consts[i[1]]


@opcode("CALL")
def _(vm, st, f, i):
    n = i[1]
    kw = f.kwnames
    f.kwnames = ()
    args = f.stack[len(f.stack) - n:]
    del f.stack[len(f.stack) - n:]
    b = f.stack.pop()
    a = f.stack.pop()
    if a is NULL:
        func = b
    else:
        func = a
        args = [b] + args
    kwargs = {}
    if kw:
        k = len(kw)
        kwargs = dict(zip(kw, args[len(args) - k:]))
        args = args[:len(args) - k]
    r = vm.push_call(st, func, tuple(args), kwargs, None)
    if r is not PUSHED:
        deliver(vm, st, f, r)


@opcode("CALL_FUNCTION_EX")
def _(vm, st, f, i):
    kwargs = {}
    if i[1] & 1:
        k = f.stack.pop()
        kwargs = dict(st.get(k).d)
    a = f.stack.pop()
    func = f.stack.pop()
    f.stack.pop()          # NULL
    if isinstance(a, Unk):
        f.stack.append(Unk(a.tag))
        return
    items = vm.B.concrete_items(vm, st, a)
    if items is None:
        raise Unsupported("star call at %s" % st.where())
    r = vm.push_call(st, func, tuple(items), kwargs, None)
    if r is not PUSHED:
        deliver(vm, st, f, r)


@opcode("CALL_INTRINSIC_1")
def _(vm, st, f, i):
    k = i[1]
    v = f.stack.pop()
    if k == 2:      # import *
        o = st.get(v) if isinstance(v, Ref) else None
        if o is not None and o.kind == "module":
            g = st.mut(f.globals).attrs
            names = o.attrs.get("__all__")
            if names is not None:
                names = vm.B.concrete_items(vm, st, names)
            else:
                names = [n for n in o.attrs if not n.startswith("_")]
            for n in names:
                g[n] = o.attrs[n]
        f.stack.append(None)
    elif k == 3:    # stopiteration error
        f.stack.append(v)
    elif k == 5:
        f.stack.append(v)
    elif k == 6:    # list to tuple
        f.stack.append(tuple(st.get(v).items))
    else:
        f.stack.append(Unk("intrinsic%d" % k))


@opcode("CALL_INTRINSIC_2")
def _(vm, st, f, i):
    f.stack.pop()
    f.stack.pop()
    f.stack.append(Unk("intrinsic"))


@opcode("MAKE_FUNCTION")
def _(vm, st, f, i):
    code = f.stack.pop()
    closure = f.stack.pop() if i[1] & 8 else ()
    if i[1] & 4:
        f.stack.pop()
    kwd = f.stack.pop() if i[1] & 2 else None
    d = f.stack.pop() if i[1] & 1 else ()
    if isinstance(kwd, Ref):
        kwd = dict(st.get(kwd).d)
    f.stack.append(FuncV(code, f.globals, d, kwd, closure))


@opcode("LOAD_BUILD_CLASS")
def _(vm, st, f, i):
    f.stack.append(BuiltinV("__build_class__", build_class))


def build_class(vm, st, args, kwargs):
    func, name = args[0], args[1]
    bases = args[2:]
    fr = vm.make_frame(st, func, (), {})
    fr.names = {}
    mod = st.get(func.globals).name
    fr.on_ret = ("class", name, bases, mod, None)
    st.frames.append(fr)
    return PUSHED


# ---- imports

@opcode("IMPORT_NAME")
def _(vm, st, f, i):
    fromlist = f.stack.pop()
    level = f.stack.pop()
    r = vm.loader.import_(vm, st, f, i[2], fromlist, level)
    if r is not PUSHED:
        f.stack.append(r)


@opcode("IMPORT_FROM")
def _(vm, st, f, i):
    m = f.stack[-1]
    if isinstance(m, Unk):
        f.stack.append(Unk(m.tag + "." + i[2]))
        return
    v = vm._getattr(st, m, i[2])
    if v is NULL:
        r = vm.loader.import_sub(vm, st, m, i[2])
        if r is PUSHED:
            return
        v = r
    f.stack.append(v)


# ---- formatting

@opcode("FORMAT_VALUE")
def _(vm, st, f, i):
    fl = i[1]
    spec = f.stack.pop() if fl & 4 else ""
    v = f.stack.pop()
    conv = {0: None, 1: "str", 2: "repr", 3: "ascii"}[fl & 3]
    deliver(vm, st, f, vm.B.format_(vm, st, v, spec, conv))


# ---- exceptions

@opcode("RAISE_VARARGS")
def _(vm, st, f, i):
    if i[1] == 2:
        f.stack.pop()
    if i[1] == 0:
        for v in reversed(f.stack):
            if isinstance(v, ExcV):
                raise PyRaise(v)
        raise Unsupported("bare raise")
    e = f.stack.pop()
    if isinstance(e, TypeV) and e.name in EXC_BASES:
        e = ExcV(e.name)
    elif isinstance(e, Ref) and st.get(e).kind == "class":
        e = ExcV(e)
    if isinstance(e, (ExcV,)):
        raise PyRaise(e)
    raise Unsupported("raise of %r at %s" % (e, st.where()))


@opcode("LOAD_ASSERTION_ERROR")
def _(vm, st, f, i):
    f.stack.append(vm.B.BUILTINS["AssertionError"])


@opcode("PUSH_EXC_INFO")
def _(vm, st, f, i):
    v = f.stack.pop()
    f.stack.append(None)
    f.stack.append(v)


@opcode("CHECK_EXC_MATCH")
def _(vm, st, f, i):
    t = f.stack.pop()
    e = f.stack[-1]
    ts = t if isinstance(t, tuple) else (t,)
    r = False
    for c in ts:
        if isinstance(e.cls, str):
            if isinstance(c, TypeV) and exc_is(e.cls, c.name):
                r = True
        else:
            for m in vm.mro(st, e.cls):
                if m == c or (isinstance(m, TypeV) and isinstance(c, TypeV) and exc_is(m.name, c.name)):
                    r = True
    f.stack.append(r)


@opcode("POP_EXCEPT")
def _(vm, st, f, i):
    f.stack.pop()


@opcode("RERAISE")
def _(vm, st, f, i):
    e = f.stack.pop()
    if i[1]:
        pass
    raise PyRaise(e)


@opcode("BEFORE_WITH")
def _(vm, st, f, i):
    m = f.stack.pop()
    if isinstance(m, Unk):
        f.stack.append(Unk(m.tag + ".__exit__"))
        f.stack.append(Unk(m.tag))
        return
    ex = vm.getattr(st, m, "__exit__")
    en = vm.getattr(st, m, "__enter__")
    f.stack.append(ex)
    r = vm.push_call(st, en, (), {}, None)
    if r is not PUSHED:
        deliver(vm, st, f, r)


@opcode("WITH_EXCEPT_START")
def _(vm, st, f, i):
    ex = f.stack[-4]
    e = f.stack[-1]
    r = vm.push_call(st, ex, (Unk("type"), e, None), {}, None)
    if r is not PUSHED:
        deliver(vm, st, f, r)


# ---- pattern matching (simple forms)

@opcode("GET_LEN")
def _(vm, st, f, i):
    deliver(vm, st, f, vm.B.len_(vm, st, f.stack[-1]))


@opcode("MATCH_SEQUENCE")
def _(vm, st, f, i):
    v = f.stack[-1]
    f.stack.append(isinstance(v, tuple) or (isinstance(v, Ref) and st.get(v).kind == "list"))


@opcode("MATCH_MAPPING")
def _(vm, st, f, i):
    v = f.stack[-1]
    f.stack.append(isinstance(v, Ref) and st.get(v).kind == "dict")


@opcode("MATCH_CLASS")
def _(vm, st, f, i):
    names = f.stack.pop()
    cls = f.stack.pop()
    subj = f.stack.pop()
    if vm.B.isinstance_(vm, st, subj, cls):
        if isinstance(cls, TypeV) and cls.name in ("int", "str", "float", "bool", "list", "tuple", "range") and i[1] == 1:
            f.stack.append((subj,))
        else:
            f.stack.append(tuple(vm.getattr(st, subj, n) for n in names))
    else:
        f.stack.append(None)
