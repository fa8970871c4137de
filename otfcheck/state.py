"""Abstract machine state: heap of immutable cells, path facts, joins."""
import itertools

from . import poly as P
from .poly import P1, ZERO, mk_atom, as_poly
from .values import *


class EnvCell:
    __slots__ = ("vars", "owner")

    def __init__(self, vars, owner=None):
        self.vars, self.owner = vars, owner


class ArrCell:
    """av: current abstract value.  Views keep (base ref, derive, putback, src av)."""

    __slots__ = ("av", "owner", "base", "derive", "putback", "src")

    def __init__(self, av, owner=None, base=None, derive=None, putback=None, src=None):
        self.av, self.owner, self.base, self.derive, self.putback, self.src = av, owner, base, derive, putback, src


class ListCell:
    __slots__ = ("items", "owner")

    def __init__(self, items, owner=None):
        self.items, self.owner = items, owner


class DictCell:
    __slots__ = ("d", "owner")

    def __init__(self, d, owner=None):
        self.d, self.owner = d, owner


class SetCell:
    __slots__ = ("items", "owner")

    def __init__(self, items, owner=None):
        self.items, self.owner = items, owner


class ObjCell:
    __slots__ = ("cls", "fields", "owner")

    def __init__(self, cls, fields, owner=None):
        self.cls, self.fields, self.owner = cls, fields, owner


class IterCell:
    """One-shot iterator over a concrete list of values."""

    __slots__ = ("items", "pos", "owner")

    def __init__(self, items, pos=0, owner=None):
        self.items, self.pos, self.owner = items, pos, owner


_fresh = itertools.count(1)


def fresh_ind(why):
    return as_poly(mk_atom("ind", ("b", "%s#%d" % (why, next(_fresh))), nonneg=True, integer=True))


class State:
    __slots__ = ("heap", "path", "facts")

    def __init__(self, heap=None, path=(), facts=None):
        self.heap = heap if heap is not None else {}
        self.path = path
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.heap), self.path, self.facts)

    def assume(self, c, t):
        """New state with indicator poly c == t added (heap shared copy)."""
        f = dict(self.facts)
        add_fact(f, c, t)
        return State(dict(self.heap), self.path + ((c, t),), f)


def add_fact(f, c, t):
    f[c.id] = t
    s = c.single()
    if s is not None and s[1] == 1 and t:
        # product of indicators true -> each true
        for a, e in s[0]:
            f[as_poly(a).id] = True
    n = P1 - c
    s = n.single()
    if s is not None and s[1] == 1 and not t:
        for a, e in s[0]:
            f[as_poly(a).id] = True
    # (1-a)(1-b)... forms: try to factor c as 1 - (1-a)(1-b) for two atoms
    if len(c.m) == 3:
        ats = [m[0][0] for m, k in c.m if len(m) == 1 and k == 1]
        if len(ats) == 2:
            a, b = as_poly(ats[0]), as_poly(ats[1])
            if c == a + b - a * b and not t:
                f[a.id] = False
                f[b.id] = False
            if P1 - c == (P1 - a) * (P1 - b) and not t:
                f[a.id] = f[b.id] = False
    if c == ZERO:
        return


def known(facts, c):
    """Truth value of indicator poly c under facts, or None."""
    k = c.const()
    if k is not None:
        return bool(k)
    v = facts.get(c.id)
    if v is not None:
        return v
    v = facts.get((P1 - c).id)
    if v is not None:
        return not v
    s = c.single()
    if s is not None and len(s[0]) == 1 and s[1] == 1:
        return known_atom(facts, s[0][0][0])
    # substitute known atoms
    ats = set()
    for m, _ in c.m:
        for a, e in m:
            if a.tag == "ind":
                ats.add(a)
    mp = {}
    for a in ats:
        v = known_atom(facts, a)
        if v is not None:
            mp[a] = P1 if v else ZERO
    if mp:
        r = P.map_atoms(c, lambda a: mp.get(a, as_poly(a)))
        k = r.const()
        if k is not None:
            return bool(k)
        v = facts.get(r.id)
        if v is not None:
            return v
        v = facts.get((P1 - r).id)
        if v is not None:
            return not v
    return None


def known_atom(facts, a):
    v = facts.get(as_poly(a).id)
    if v is not None:
        return v
    if a.tag != "ind":
        return None
    kind = a.args[0]
    if kind not in ("gt", "ge", "eq"):
        return None
    p = a.args[1]

    def f(k, q):
        r = P.mk_ind(k, q)
        c = r.const()
        if c is not None:
            return bool(c)
        return facts.get(r.id)

    if kind == "gt":
        if f("ge", p) is False or f("eq", p) or f("gt", -p) or f("ge", -p):
            return False
        if f("ge", p) and f("eq", p) is False:
            return True
        if f("ge", -p) is False:
            return True
    elif kind == "ge":
        if f("gt", p) or f("eq", p) or f("gt", -p) is False:
            return True
        if f("gt", -p):
            return False
    else:
        if f("gt", p) or f("gt", -p) or f("ge", p) is False or f("ge", -p) is False:
            return False
        if f("ge", p) and f("ge", -p):
            return True
    return None
