"""Obligations, violations and the evidence file of one run."""
import json
import os
import signal
import time
from .vm import Unsupported, NeedFork, PyRaise
from .loader import Project
from .product import Equiv

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class AnchorLost(Exception):
    """The construct a rule is about cannot be found in the source."""


class HardStop(BaseException):
    pass


def out_of_time(*a):
    raise HardStop()


class Ctx(object):
    timed = False

    def __init__(self, pid, tier, seed, root=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.root = root or REPO
        self.obligations = []          # dicts
        self.violations = []
        self.undecided = []
        self.errors = []
        self.functions = set()
        self.counts = {}
        self.assumptions = []
        self._project = None
        self.t0 = time.time()
        self.deadline = self.t0 + (4 * 3600 if self.thorough else 720)

    # ---- source access
    @property
    def project(self):
        if self._project is None:
            self._project = Project(self.root)
            self._project.vm.deadline = self.deadline
        return self._project

    def with_tables(self, overrides, modules=None):
        """The same obligations over a project whose data tables are replaced (symbolic contents)."""
        sub = Ctx.__new__(Ctx)
        sub.__dict__.update(self.__dict__)
        sub._project = Project(self.root, modules, overrides)
        sub._project.vm.deadline = self.deadline
        missing = set(overrides) - sub._project.loader.overridden
        if missing:
            raise AnchorLost(", ".join("%s.%s" % k for k in sorted(missing)))
        return sub

    def with_files(self, modules, files):
        """The same obligations over a project that sees the given files; other modules are loaded by the code under analysis."""
        sub = Ctx.__new__(Ctx)
        sub.__dict__.update(self.__dict__)
        sub._project = Project(self.root, modules)
        sub._project.vm.deadline = self.deadline
        sub._project.vm.files = files
        return sub

    def anchor(self, mod, name):
        """A module-level name of the project, or a dotted path below a class."""
        p = self.project
        parts = name.split(".")
        if not p.has(mod, parts[0]):
            raise AnchorLost("%s.%s" % (mod, name))
        v = p.get(mod, parts[0])
        for x in parts[1:]:
            v = p.vm.lookup_type_attr(p.state(), v, x)
            if v is None:
                raise AnchorLost("%s.%s" % (mod, name))
        return v

    def spec(self, name, inject=None):
        key = "spec:" + name
        p = self.project
        if key not in p.vm.modules:
            src = open(os.path.join(HERE, "specs", name + ".py"), encoding="utf-8").read()
            p.add_module(key, src, inject)
        return lambda n: p.get(key, n)

    # ---- bookkeeping
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, name, **info):
        self.obligations.append(dict(name=name, result="discharged", **info))

    def violate(self, name, where, **info):
        self.obligations.append(dict(name=name, result="violated", where=where, **info))
        self.violations.append(dict(name=name, where=where, **info))

    def undecide(self, name, why, **info):
        self.obligations.append(dict(name=name, result="undecided", why=why, **info))
        self.undecided.append((name, why))

    def guard(self, name, fn, *a, **k):
        """Run one obligation; what the analysis cannot follow stays undecided."""
        if not self.timed:                      # the engine looks at the clock between steps; one step may be long
            self.timed = True
            signal.signal(signal.SIGALRM, out_of_time)
            signal.setitimer(signal.ITIMER_REAL, max(1.0, self.deadline - time.time() + 10))
            try:
                return self.guard(name, fn, *a, **k)
            except HardStop:
                self.undecide(name, "out of time in one step")
                return
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self.timed = False
        if time.time() > self.deadline:
            self.undecide(name, "out of time")
            return
        if len(self.violations) >= 12:
            self.count("skipped_after_violations")
            return
        try:
            return fn(*a, **k)
        except AnchorLost as e:
            self.undecide(name, "anchor not found: %s" % e)
            self.errors.append("anchor not found: %s" % e)
        except Unsupported as e:
            self.undecide(name, "not analysable: %s" % e)
        except RecursionError:
            self.undecide(name, "not analysable: recursion")
        except (NeedFork, PyRaise) as e:
            self.undecide(name, "not analysable: %r" % (e,))
        except Exception as e:                  # a limit of the engine, not a verdict
            import traceback
            self.undecide(name, "engine: %r" % (e,), traceback=traceback.format_exc()[-1500:])

    def equiv(self, name, func, ref, make_args, where=None, **kw):
        """Obligation: func agrees with ref on every argument."""
        def go():
            f = func() if callable(func) else func
            e = Equiv(self.project, name)
            e.run(f, ref, make_args, **kw)
            self.finish_equiv(name, e, where)
        self.guard(name, go)

    def fan(self, items, fn, workers=None, limit=None):
        """fn(ctx, item) for every item, in forked workers; the records are merged in order."""
        import pickle
        items = list(items)
        n = min(workers or os.cpu_count() or 1, len(items), 8)
        if n <= 1:
            for it in items:
                fn(self, it)
            return
        self.project
        todo, put = os.pipe()                   # what is left to do, read by every worker
        import mmap
        seen = mmap.mmap(-1, n)                 # violations found by each worker
        procs = []
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.close(put)
                try:                            # do not outlive the parent
                    import ctypes
                    ctypes.CDLL(None).prctl(1, 9)
                except Exception:
                    pass
                code = 1
                try:
                    out = []
                    while True:
                        b = os.read(todo, 4)
                        if not b:
                            break
                        i = int.from_bytes(b, "little")
                        sub = Ctx.__new__(Ctx)
                        sub.__dict__.update(self.__dict__)
                        sub.timed = False
                        sub.obligations, sub.violations, sub.undecided, sub.errors = [], [], [], []
                        sub.functions, sub.counts = set(), {}
                        if sum(seen[:]) >= 3:
                            sub.count("skipped_after_violations")
                        else:
                            if limit:
                                sub.deadline = min(sub.deadline, time.time() + limit * (5 if self.thorough else 1))
                            if sum(seen[:]):
                                sub.deadline = min(sub.deadline, time.time() + 20)
                            sub.guard("part %d" % i, fn, sub, items[i])
                            seen[w] = min(255, seen[w] + len(sub.violations))
                        out.append((i, sub.obligations, sub.violations, sub.undecided, sub.errors, sub.functions, sub.counts))
                    data = pickle.dumps(json.loads(json.dumps([x[:5] for x in out], default=repr)))
                    data = pickle.dumps((data, [(x[0], x[5], x[6]) for x in out]))
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            procs.append((pid, r))
        os.close(todo)
        try:
            for i in range(len(items)):
                os.write(put, i.to_bytes(4, "little"))
        except BrokenPipeError:
            pass
        os.close(put)
        merged = {}
        for w, (pid, r) in enumerate(procs):
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.undecide("worker %d" % w, "the worker ended without an answer")
                continue
            a, b = pickle.loads(data)
            for x in pickle.loads(a):
                merged[x[0]] = x
            for i, fs, cs in b:
                self.functions |= fs
                for k, v in cs.items():
                    self.count(k, v)
        for i in sorted(merged):
            _, ob, vi, un, er = merged[i]
            self.obligations += ob
            self.violations += vi
            self.undecided += [tuple(u) for u in un]
            self.errors += er

    def finish_equiv(self, name, e, where=None):
        self.functions |= e.functions
        self.count("paths", e.paths)
        self.count("leaf_comparisons", e.leaves)
        self.count("infeasible_paths_by_enumeration", e.refuted)
        loc = where or "; ".join(sorted("%s:%s" % (a, b) for a, b in e.functions)[:6])
        if e.problems:
            for pr in e.problems[:3]:
                self.violate(name, loc, **pr)
        elif e.undecided_list:
            self.undecide(name, "mismatch without a witness", detail=e.undecided_list[:2])
        else:
            self.ok(name, paths=e.paths, leaves=e.leaves)

    # ---- the end of a run
    def finish(self, level="proof", explanation="", trusted=(), known=()):
        ndis = sum(1 for o in self.obligations if o["result"] == "discharged")
        fresh, listed = [], []
        for v in self.violations:
            key = "%s|%s" % (v["name"], v["where"])
            (listed if key in known else fresh).append(v)
        cov = {"obligations": len(self.obligations), "discharged": ndis, "undecided": len(self.undecided),
               "checker_cmd": "python3 /verif/check.py %s --tier %s" % (self.pid, self.tier),
               "trusted_base": list(trusted) or TRUSTED,
               "functions_analysed": sorted("%s:%s" % (a, b) for a, b in self.functions),
               "counts": self.counts,
               "explanation": explanation,
               "details": self.obligations[:400]}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "violations": len(fresh), "wall_s": round(time.time() - self.t0, 3)}
        d = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for v in listed:
            print("KNOWN-FINDING: property=%s %s at %s" % (self.pid, v["name"], v["where"]))
        if fresh:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "violations": fresh[:20]}, f, indent=1, default=repr)
            for v in fresh[:5]:
                print("%s: %s" % (v["name"], v["where"]))
                for k in ("witness", "got_value", "expected_value", "got", "expected", "what"):
                    if k in v:
                        print("    %s: %s" % (k, str(v[k])[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        for n, w in self.undecided[:10]:
            print("undecided: %s: %s" % (n, w))
        if self.errors and ndis == 0 or not self.obligations:
            print("ERROR property=%s: nothing could be decided: %s" % (self.pid, "; ".join(self.errors[:3])))
            return 2
        if ndis == 0:
            print("ERROR property=%s: nothing could be decided" % self.pid)
            return 2
        print("OK property=%s obligations=%d discharged=%d undecided=%d" % (self.pid, len(self.obligations), ndis, len(self.undecided)))
        return 0


TRUSTED = ["the abstract interpreter in /verif/sa (its operator rules and normal forms)",
           "CPython's compiler (source to bytecode)",
           "the reference definitions in /verif/specs"]
