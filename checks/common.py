from sa.expr import *
from sa.facts import Facts
from sa.vm import *
from sa.loader import Project
from sa.product import Equiv, find_witness, show_witness, outcome, show_val
from sa.report import AnchorLost
from sa import builtins_ as B

MAXC = 0x10FFFF


def module_attrs(ctx, mod):
    """Everything a project module binds (to be injected into a specification)."""
    p = ctx.project
    if mod not in p.vm.modules:
        raise AnchorLost(mod)
    return {k: v for k, v in p.vm.base[p.vm.modules[mod].id].attrs.items() if not k.startswith("__")}


def trie_spec(ctx):
    return ctx.spec("trie2")


def code_point(hi=MAXC):
    return var("c", 0, hi)


def fixed(*args, **kw):
    return lambda vm, st: (tuple(args), dict(kw))
