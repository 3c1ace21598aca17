"""Abstract machine state: heap of objects, current frame, guard (path condition), exceptional exits."""
from __future__ import annotations
from .terms import *

UNDEF = mk("undef", "?")          # slot not assigned on this path
ABSENT = mk("absent",)            # dict key not present on this path


class Undecided(Exception):
    """the source uses a construct the analysis does not model"""


class Dead(Exception):
    """no normal continuation (every path raises)"""


class HObj:
    __slots__ = ("kind", "d", "sym", "cls", "extra")

    def __init__(self, kind, d=None, sym=None, cls=None, extra=None):
        self.kind = kind      # inst list dict set frame arr module class
        self.d = d if d is not None else {}
        self.sym = sym
        self.cls = cls
        self.extra = extra

    def copy(self):
        d = self.d
        return HObj(self.kind, (dict(d) if isinstance(d, dict) else list(d)), self.sym, self.cls, self.extra)


_next_id = [0]


def new_id():
    _next_id[0] += 1
    return _next_id[0]


class State:
    __slots__ = ("heap", "frame", "guard", "draws")

    def __init__(self, heap, frame, guard=(), draws=0):
        self.heap = heap
        self.frame = frame
        self.guard = guard
        self.draws = draws

    def copy(self):
        return State(dict(self.heap), self.frame, self.guard, self.draws)

    def become(self, o):
        self.heap = o.heap
        self.frame = o.frame
        self.guard = o.guard
        self.draws = o.draws

    def alloc(self, obj):
        i = new_id()
        self.heap[i] = obj
        return mk("ref", i)

    def obj(self, ref):
        return self.heap[ref.args[0]]

    def w(self, ref):
        """private copy of the object for writing"""
        i = ref.args[0]
        o = self.heap[i].copy()
        self.heap[i] = o
        return o

    def assume(self, cond):
        if cond is TRUE:
            return
        parts = cond.args if cond.op == "and" else (cond,)
        g = self.guard
        for p in parts:
            if p not in g:
                g = g + (p,)
        self.guard = g


class Out:
    """outcome of executing a block"""
    __slots__ = ("normal", "rets", "brks", "conts")

    def __init__(self, normal=None):
        self.normal = normal
        self.rets = []
        self.brks = []
        self.conts = []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts


class Exit:
    """one exceptional exit: guard, exception term, state, place"""
    __slots__ = ("state", "exc", "where", "explicit")

    def __init__(self, state, exc, where, explicit=True):
        self.state = state
        self.exc = exc
        self.where = where
        self.explicit = explicit

    @property
    def guard(self):
        return self.state.guard
