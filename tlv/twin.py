"""
A copy of a schema in another module, possibly with the types spelled in a
different way.
"""
import copy
import enum
import re

from .engine import Discard
from .schema import *
from .schema import lit, obj_fields


class Twin:
    def __init__(self, src, future=False, spell=False, newtypes=False, objs=None, name='tlv_twin', quote=False):
        self.quote = quote          # Names of classes as strings, inside of the annotations
        self.src = src
        self.prog = Prog(future, name)
        self.spell = spell
        self.newtypes = newtypes
        self.memo = {}
        self.changed = 0

    def spelling(self, n, k):
        if not self.spell:
            return k
        r = self.src.draw(n)
        if r != k:
            self.changed += 1
        return r

    def __call__(self, node, member=False):
        """member: of an union, where NewType is not the same as the type in it"""
        k = id(node), member
        if k not in self.memo:
            r = self.build(node, member)
            if self.newtypes and not member and not isinstance(r, (RefN, UnionN, AnyN)) and \
                    not any(isinstance(i, RefN) for i in r.walk()) and self.src.bool(15):
                for _ in range(self.src.int(1, 2)):
                    r = NewTypeN(self.prog, r)
                self.changed += 1
            self.memo[k] = r, node    # node: so that it stays alive, and its id its own
        return self.memo[k][0]

    def build(self, n, member=False):
        if isinstance(n, (ObjN, EnumN)):
            # One definition only
            k = id(n), 'class'
            if k not in self.memo:
                self.memo[k] = self.cls(n), n
            return self.memo[k][0]
        if isinstance(n, NewTypeN):
            if self.newtypes and not member and self.src.bool(30):
                self.changed += 1
                return self(n.inner)
            return NewTypeN(self.prog, self(n.inner))
        if isinstance(n, RefN):
            return RefN(n.name)
        if isinstance(n, SeqN):
            return SeqN(self.prog, n.kind, self(n.inner), self.spelling(2, n.spelling), n.maxlen)
        if isinstance(n, TupleN):
            return TupleN(self.prog, [self(i) for i in n.inners], self.spelling(2, int(n.expr.startswith('tuple'))))
        if isinstance(n, DictN):
            return DictN(self.prog, self(n.key), self(n.val), self.spelling(2, int(n.expr.startswith('dict'))), n.maxlen)
        if isinstance(n, UnionN):
            ms = [self(i, True) for i in n.members]
            if all(i.typ == ms[0].typ for i in ms):
                raise Discard('all alternatives became the same')
            k = self.spelling(3, 1 if '|' in n.expr else 2 if n.expr.startswith('Optional') else 0)
            r = UnionN(self.prog, ms, k)
            if self.spell and len(ms) > 2 and self.src.bool(30):
                # Union inside an union: they get flattened
                r.expr = 'Union[%s, Union[%s]]' % (ms[0].expr, ', '.join(i.expr for i in ms[1:]))
                r.typ = self.prog.eval(r.expr)
                self.changed += 1
            return r
        return n

    def cls(self, n):
        if isinstance(n, EnumN):
            return EnumN(self.prog, [(a, b, self.plain(h) if h else None) for a, b, h in n.members], n.base, n.name)
        fs = []
        for f in n.fields:
            c = Field(f.name, self.quoted(self(f.node)), names=f.names, init=f.init, notrequired=f.notrequired, computed=f.computed,
                      repr=f.repr, kwonly=f.kwonly)
            if f.default:
                c.default = (self.prog.eval(lit(f.default[0])),)
            c.factory = f.factory
            c.takes_self = f.takes_self
            c.alias = f.alias
            fs.append(c)
        return ObjN(self.prog, n.kind, fs, name=n.name, **n.opt)

    def quoted(self, n):
        if not self.quote or '|' in n.expr or not self.src.bool(70):
            return n
        names = {i.name for i in n.walk() if isinstance(i, (ObjN, EnumN))}
        e = re.sub(r'\b(%s)\b' % '|'.join(names), r"'\1'", n.expr) if names and "'" not in n.expr and '"' not in n.expr else n.expr
        if e == n.expr:
            return n
        self.changed += 1
        n = copy.copy(n)
        n.expr = e
        return n

    def plain(self, n):
        """Without changes of the spelling"""
        if isinstance(n, SeqN):
            return SeqN(self.prog, n.kind, self.plain(n.inner), n.spelling, n.maxlen)
        if isinstance(n, TupleN):
            return TupleN(self.prog, [self.plain(i) for i in n.inners], int(n.expr.startswith('tuple')))
        return n


def unsorted(node):
    """Sets of objects, whose hash is not the same in the copy: they can be in another order"""
    return any(isinstance(i, SeqN) and i.kind in ('set', 'frozenset') and i.contains(ObjN, AnyN) for i in node.walk())


def alike(a, b):
    """The same value, made of classes with the same name"""
    ta, tb = type(a), type(b)
    if ta is not tb and not (ta.__name__ == tb.__name__ and ta.__module__.startswith('tlv_') and tb.__module__.startswith('tlv_')):
        return False
    if isinstance(a, enum.Enum):
        return a.name == b.name
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(alike(x, y) and alike(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(alike(i, j) for j in b) for i in a)
    f = obj_fields(a)
    if f is not None:
        return all(alike(getattr(a, i, None), getattr(b, i, None)) for i in f)
    return same(a, b)


def alike_unordered(a, b, ignore=()):
    """The same, where the order of fields and keys does not matter, and some keys neither. b can have more fields"""
    ta, tb = type(a), type(b)
    if ta is not tb and not (ta.__name__ == tb.__name__ and ta.__module__.startswith('tlv_') and tb.__module__.startswith('tlv_')):
        return False
    if isinstance(a, enum.Enum):
        return a.name == b.name
    f = obj_fields(a)
    if f is not None:
        return all(alike_unordered(getattr(a, i, None), getattr(b, i, None), ignore) for i in f)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike_unordered(x, y, ignore) for x, y in zip(a, b))
    if isinstance(a, dict):
        a, b = [[(k, v) for k, v in i.items() if not (isinstance(k, str) and k in ignore)] for i in (a, b)]
        if not (len(a) == len(b) or ignore and len(a) < len(b)):
            return False
        # Keys that only differ in the ignored fields can be the same one in a
        return all(any(alike_unordered(k, q, ignore) and alike_unordered(v, w, ignore) for q, w in b) for k, v in a) and \
            all(any(alike_unordered(k, q, ignore) for k, v in a) for q, w in b)
    if isinstance(a, (set, frozenset)):
        if not (len(a) == len(b) or ignore and len(a) < len(b)):
            return False
        return all(any(alike_unordered(i, j, ignore) for j in b) for i in a) and all(any(alike_unordered(i, j, ignore) for i in a) for j in b)
    return same(a, b)
