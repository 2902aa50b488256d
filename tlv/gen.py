"""
Generators of schemas (types), of data for them, and of faults in the data.
"""
import argparse
import collections
import datetime
import decimal
import fractions
import math
import pathlib
import re
import types
import uuid

from .engine import Discard
from .schema import *
from .schema import Collision


class Profile:
    """What the schemas can contain"""
    weights = dict(basic=30, literal=4, enum=4, scalar=3, pattern=1, date=2, timedelta=1, newtype=3, any=2,
                   seq=12, tuple=7, dict=9, union=12, obj=20)
    objs = dict(nt=3, dc=4, at=3, td=3)
    depth = 3
    maxfields = 5
    unions = 'any'            # none, any, disjoint, optional
    mangling = True
    defaults = True
    factories = True
    computed = True
    validate = True
    recursion = True
    notrequired = True
    nontotal = False      # TypedDict with total=False, even without notrequired
    strconstructed = False
    enum_tuples = True
    enum_scalars = True
    enum_none = True          # None can be the value of a member of an Enum
    jsonkeys = False          # dictionary keys are str
    dumpable = False          # dictionary keys have an hashable dump
    basics = (int, str, float, bool, type(None))
    kinds = ('list', 'set', 'frozenset', 'tuple')
    inherit = True
    norepr = False          # attrs fields with repr=False, which are not dumped
    odd_names = True
    kwonly = True
    future = False
    tags_default = True
    eq_always = False         # all classes have __eq__
    isodates = None
    any_in_union = False
    private = True            # attrs fields whose parameter has another name
    custom = None             # function(gen, hashable, key): a node, or None, used in place of some of the scalars
    custom_often = 50
    wide = 120                # one class or tuple in so many has tens of fields; 0 for never

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise AttributeError(k)
            setattr(self, k, v)

    def without(self, *kinds):
        self.weights = {k: v for k, v in self.weights.items() if k not in kinds}
        return self

    def only(self, **w):
        self.weights = w
        return self


PLAIN_NAMES = ('a', 'b', 'x', 'y', 'name', 'value', 'kind', 'n')
ODD_NAMES = ('type', 'items', 'keys', 'get', 'id', 'values', 'cls', 'index', 'count', 'copy', 'type_', 'l', 'd', 'data', 'é',
             'pop', 'update', 'camelCase', 'x1', 'trace')
MANGLED = ('Name', 'att.rib', 'camelCase', 'if', 'a b', 'ü', 'X-Header', 'class', 'a', 'x', '@type', '1', 'None', '$ref', 'get', 'items', '')
TAGNAMES = ('type', 'kind', 'name', 't', 'get', 'keys')
TAGVALUES = ('a', 'b', 'c', 'd', 1, 2, 3, 'type', '', 10, -1, 'é', 'A')


class Gen:
    def __init__(self, src, profile=None, prog=None, cfg=None):
        self.src = src
        self.p = profile or Profile()
        self.prog = prog or Prog(self.p.future)
        self.cfg = cfg or Cfg()
        self.open = []        # names of the classes being defined, that can be referred to
        self.pool = []        # nodes already generated, to be reused
        self.strconstructed = []

    # ---------------------------------------------------------------- types

    def type(self, depth=None, hashable=False, key=False, nounion=False, noany=False, top=False, dumpkey=False):
        src = self.src
        if depth is None:
            depth = self.p.depth
        w = dict(self.p.weights)
        if depth <= 0:
            for i in ('seq', 'tuple', 'dict', 'union', 'obj'):
                w.pop(i, None)
        if hashable or key:
            for i in ('dict', 'any', 'obj'):
                w.pop(i, None)
        if key:
            for i in ('seq', 'tuple', 'pattern', 'date', 'timedelta'):
                if i in w and i in ('seq', 'tuple') and not self.p.dumpable and not dumpkey:
                    w[i] = max(1, w[i] // 4)
                else:
                    w.pop(i, None)
        if nounion or self.p.unions == 'none':
            w.pop('union', None)
        if noany or hashable:
            w.pop('any', None)
        if top:
            w.pop('any', None)
            w['basic'] = max(1, w.get('basic', 0) // 5)
        order = ('basic', 'seq', 'obj', 'dict', 'tuple', 'union', 'literal', 'enum', 'scalar', 'newtype', 'date', 'timedelta',
                 'pattern', 'any')
        if not w:
            w = {'basic': 1}
        # reuse: the same type in more than one position
        if self.pool and src.bool(8):
            cand = [n for n in self.pool if (not hashable or n.hashable) and (not key or n.keyable) and
                    (not (key and (self.p.dumpable or dumpkey)) or n.dumpkey) and not (nounion and n.any_union()) and
                    not (noany and isinstance(n, AnyN)) and not isinstance(n, RefN) and
                    (n.basic or not hasattr(n, 'kind') or n.expr not in self.open)]
            if cand:
                return src.choice(cand)
        k = src.weighted([(w[i], i) for i in order if i in w])
        n = getattr(self, 'g_' + k)(depth, hashable, key, dumpkey)
        # what refers to a class still being defined can only be used inside of it
        if not n.basic and len(self.pool) < 12 and not any(isinstance(i, RefN) and i.target is None for i in n.walk()):
            self.pool.append(n)
        return n

    def g_basic(self, depth, hashable, key, dumpkey=False):
        if key and self.p.jsonkeys:
            return BasicN(str)
        return BasicN(self.src.choice(self.p.basics))

    def g_any(self, depth, hashable, key, dumpkey=False):
        return AnyN()

    def g_literal(self, depth, hashable, key, dumpkey=False):
        src = self.src
        if key and self.p.jsonkeys:
            pool = ('a', 'b', 'foo', 'type', '')
        else:
            pool = ('a', 'b', 'foo', 1, 2, 0, -5, True, False, None, 'type', '', '1', b'x') if not self.p.jsonkeys and not self.p.dumpable else \
                ('a', 'b', 'foo', 1, 2, 0, -5, True, False, None, 'type', '', '1')
        vs = []
        for v in src.sample(pool, src.size(1, 4)):
            if not any(v == i for i in vs):
                vs.append(v)
        return LiteralN(vs)

    def g_enum(self, depth, hashable, key, dumpkey=False):
        src = self.src
        base = src.weighted([(5, 'Enum'), (1, 'IntEnum'), (1, 'str, Enum'), (1, 'StrEnum')])
        n = src.size(1, 4)
        members = []
        values = []
        strkeys = key and self.p.jsonkeys
        kind = src.weighted([(3, 'int'), (3, 'str'), (2, 'mixed'), (2 if self.p.enum_tuples and not key else 0, 'tuple'),
                             (1 if self.p.enum_tuples and self.p.enum_scalars and not key else 0, 'scalar')])
        hint = None
        if base != 'Enum':
            kind = 'int' if base == 'IntEnum' else 'str'
            if strkeys and kind == 'int':
                base, kind = 'Enum', 'str'
        elif strkeys:
            kind = 'str'
        if kind == 'tuple':
            inners = [BasicN(src.choice((int, str))) for _ in range(2)]
            hint = SeqN(self.prog, 'tuple', inners[0], 0) if src.bool(30) else TupleN(self.prog, inners, 0)
        elif kind == 'scalar':
            hint = ScalarN(src.choice(('Path', 'IPv4Address', 'IPv6Network', 'UUID', 'IPv4Interface')))
        elif base == 'Enum' and kind in ('int', 'str') and src.bool(30) and not self.p.future:
            hint = BasicN({'int': int, 'str': str}[kind])
        for i in range(n):
            if kind == 'int':
                v = src.int(0, 9) if src.bool(80) else src.choice((-1, 100, 2**40))
            elif kind == 'str':
                v = src.choice(('a', 'b', 'x', '1', '', 'foo', 'é'))
            elif kind == 'mixed':
                v = src.choice((1, 'a', 2.5, None if self.p.enum_none else 4, 'b', 3, '1', False))
            else:
                v = hint.value(src)
                if kind == 'tuple' and any(type(x) is not type(y) or x != x for x, y in zip(v, v)):
                    continue
            if any(v == j for j in values):
                if not src.bool(20):
                    continue     # otherwise an alias
            values.append(v)
            members.append(('m%d' % i, v, hint if hint and (kind in ('tuple', 'scalar') or src.bool(70)) else None))
        if not members:
            members.append(('m0', hint.value(src) if hint else ('a' if kind == 'str' else 1), hint))
        n = EnumN(self.prog, members, base)
        if strkeys and not all(isinstance(v, str) for _, v, _ in members):
            return BasicN(str)
        return n

    def g_scalar(self, depth, hashable, key, dumpkey=False):
        if self.p.custom and self.src.bool(self.p.custom_often):
            n = self.p.custom(self, hashable, key)
            if n is not None:
                return n
        if self.p.strconstructed and self.src.bool(40):
            if self.strconstructed and self.src.bool(30):
                return self.src.choice(self.strconstructed)
            n = StrConstructedN(self.prog)
            self.strconstructed.append(n)
            return n
        return ScalarN(self.src.choice(list(ScalarN.POOL)))

    def g_pattern(self, depth, hashable, key, dumpkey=False):
        return PatternN(self.src.choice((None, str, 'tstr') if self.p.jsonkeys else (None, str, bytes, 'tstr')), nobytes=self.p.jsonkeys)

    def g_date(self, depth, hashable, key, dumpkey=False):
        return DateN(self.src.choice(('date', 'time', 'datetime')), tz=self.p.isodates is not False)

    def g_timedelta(self, depth, hashable, key, dumpkey=False):
        return TimedeltaN()

    def g_newtype(self, depth, hashable, key, dumpkey=False):
        inner = self.type(max(0, depth - 1), hashable, key, noany=True, dumpkey=dumpkey)
        if isinstance(inner, (UnionN, RefN)):
            # NewType of unions works for typedload, but not for the type checkers
            return inner
        return NewTypeN(self.prog, inner)

    def spelling(self):
        return self.src.draw(2)

    def g_seq(self, depth, hashable, key, dumpkey=False):
        src = self.src
        kinds = self.p.kinds
        if hashable or key:
            kinds = ('tuple', 'frozenset') if not key else ('tuple',)
        kind = src.choice(kinds)
        if kind in ('set', 'frozenset') or hashable or key:
            inner = self.type(depth - 1, True, key, dumpkey=dumpkey)
            if not inner.hashable or key and not inner.keyable:
                inner = BasicN(src.choice((int, str)))
        else:
            inner = self.type(depth - 1)
        return SeqN(self.prog, kind, inner, self.spelling())

    def g_tuple(self, depth, hashable, key, dumpkey=False):
        src = self.src
        inners = []
        if self.p.wide and src.rare(self.p.wide):
            return TupleN(self.prog, [BasicN(src.choice((int, str))) for _ in range(src.int(8, 34))], self.spelling())
        for _ in range(src.size(0 if not key else 1, 4)):
            i = self.type(depth - 1, hashable or key, key, dumpkey=dumpkey)
            if (hashable or key) and not i.hashable or key and not i.keyable:
                i = BasicN(src.choice((int, str)))
            inners.append(i)
        return TupleN(self.prog, inners, self.spelling())

    def g_dict(self, depth, hashable, key, dumpkey=False):
        k = self.type(1, True, True, dumpkey=self.p.dumpable)
        if not k.hashable or not k.keyable or ((self.p.dumpable or self.p.jsonkeys) and not k.dumpkey):
            k = BasicN(str)
        if self.p.jsonkeys and not strkey(k):
            k = BasicN(str)
        return DictN(self.prog, k, self.type(depth - 1), self.spelling())

    def g_union(self, depth, hashable, key, dumpkey=False):
        src = self.src
        p = self.p
        if p.unions == 'optional':
            inner = self.type(depth - 1, hashable, key, noany=True, nounion=True)
            if inner.basic and inner.typ is type(None):
                inner = BasicN(int)
            return UnionN(self.prog, [inner, BasicN(type(None))], src.draw(3))
        if p.unions == 'disjoint':
            return self.disjoint_union(depth, hashable, key)
        ms = []
        if depth >= 1 and not hashable and not key and src.bool(25):
            ms = self.tagged(depth - 1, p.tags_default, overlap=src.bool(25))
        for _ in range(src.size(0 if len(ms) > 1 else 2, 3)):
            ms.append(self.type(depth - 1, hashable, key, noany=not p.any_in_union, dumpkey=dumpkey))
        if src.bool(30):
            ms.append(BasicN(type(None)))
        if src.bool(50):
            ms = src.shuffle(ms)
        return self.union(ms)

    def union(self, ms):
        flat = []
        for m in ms:
            for i in (m.members if isinstance(m, UnionN) else [m]):
                if not any(i.typ == j.typ for j in flat):
                    flat.append(i)
        if len(flat) == 1:
            x = BasicN(type(None)) if not (flat[0].basic and flat[0].typ is type(None)) else BasicN(int)
            flat.append(x)
        return UnionN(self.prog, flat, self.src.draw(3))

    def disjoint_union(self, depth, hashable, key):
        """
        The dump of a value of a member can only be loaded by that member
        """
        src = self.src
        ms = []
        basics = src.sample([t for t in self.p.basics], src.size(0, 3))
        if key and self.p.jsonkeys:
            basics = [str]
        hasstr = str in basics
        ms += [BasicN(t) for t in basics]
        extra = src.shuffle(['S', 'L', 'D'])[:src.size(0 if len(ms) > 1 else 1, 2)]
        if key or hashable:
            extra = [i for i in extra if i not in ('D',)]
        if key:
            extra = [i for i in extra if i != 'L']
        if 'S' in extra and 'L' in extra:
            extra.remove(src.choice(('S', 'L')))
        if hasstr and 'S' in extra:
            extra.remove('S')
        if key and self.p.jsonkeys:
            extra = []
        for e in extra:
            if e == 'S':
                k = src.draw(3)
                if k == 0:
                    ms.append(ScalarN(src.choice(['IPv4Address', 'UUID', 'IPv6Network', 'IPv4Interface', 'Path'])))
                elif k == 1:
                    ms.append(EnumN(self.prog, [('a', 'aa', None), ('b', 'bb', None)]))
                else:
                    ms.append(LiteralN(['k1', 'k2']))
            elif e == 'L':
                if depth <= 0:
                    continue
                n = self.g_tuple(depth, hashable, key) if src.bool(40) else self.g_seq(depth, hashable, key)
                ms.append(n)
            elif depth > 0:
                k = src.draw(3)
                if k == 0:
                    ms += self.tagged(depth - 1, False)
                elif k == 1:
                    ms.append(self.g_dict(depth, False, False))
                else:
                    ms.append(self.obj(depth - 1))
        if len(ms) < 2:
            if not any(m.basic and m.typ is type(None) for m in ms):
                ms.append(BasicN(type(None)))
            if len(ms) < 2:
                ms.append(BasicN(int))
        ms = src.shuffle(ms)
        return UnionN(self.prog, ms, src.draw(3))

    def tagged(self, depth, default=True, n=None, kinds=None, overlap=False):
        """Objects that have a Literal field of the same name"""
        src = self.src
        tag = self.tagname = src.choice(TAGNAMES)
        values = src.shuffle(TAGVALUES)
        out = []
        kinds = kinds or [k for k in self.p.objs]
        for _ in range(n or src.size(2, 4)):
            mine = [values.pop() for _ in range(src.size(1, 2)) if values]
            if overlap and out and src.bool(70):
                # Some values belong to more than one
                mine.append(src.choice(src.choice(out).fields_tag.values))
            f = Field(tag, LiteralN(mine))
            if default and src.bool(30):
                f.default = (mine[0],)
            kind = src.choice(kinds)
            force = {'total': True} if kind == 'td' and not default else {}
            out.append(self.obj(depth, kind=kind, first=f, nomangle=(tag,), **force))
            out[-1].fields_tag = f.node
        return out

    def g_obj(self, depth, hashable, key, dumpkey=False):
        return self.obj(depth - 1)

    # --------------------------------------------------------------- objects

    def default_for(self, f, kind):
        """Gives a default to the field"""
        src = self.src
        if f.node.contains(RefN) and not isinstance(f.node, (UnionN, SeqN, DictN)):
            return
        node = f.node
        if node.contains(RefN):
            e = empty_value(node)
            if e is NOTHING:
                return
            v = e
        else:
            v = node.value(src)
        if not litable(node):
            return
        immut = node.hashable or v is None or isinstance(v, (int, str, float))
        if kind != 'nt' and (not immut or self.p.factories and src.bool(30)) and self.p.factories:
            if v in ([], {}) or type(v) in (set, tuple, frozenset) and not v:
                f.factory = type(v).__name__
            else:
                f.factory = 'lambda: ' + lit(v)
        elif immut:
            f.default = (v,)
        if kind == 'at' and f.has_default and self.p.factories and src.bool(15):
            f.takes_self = True

    def obj(self, depth, kind=None, first=None, nomangle=(), name=None, nfields=None, **force):
        src = self.src
        p = self.p
        if kind is None:
            kind = src.weighted([(w, k) for k, w in p.objs.items()])
        name = name or self.prog.fresh({'nt': 'T', 'dc': 'D', 'at': 'A', 'td': 'J'}[kind])
        recursive = p.recursion and src.bool(15)
        if recursive:
            self.open.append(name)
        names = list(PLAIN_NAMES)
        if p.odd_names:
            odd = list(ODD_NAMES)
            if kind == 'td':
                odd += ['a-b', 'class', '', '1']
            names = src.sample(names, 5) + src.sample(odd, 2 if src.bool(30) else 0)
        if first:
            names = [n for n in names if n != first.name]
        n = src.size(0 if not first else 0, p.maxfields) if nfields is None else nfields
        wide = p.wide and nfields is None and src.rare(p.wide)
        if wide:
            # Many fields
            n = src.int(18, 45)
            names += ['w%d' % i for i in range(40)]
            depth = 0
        if n == 0 and not first and not src.bool(10):
            n = 1
        fields = [first] if first else []
        for fn in src.sample(names, n):
            if recursive and src.bool(40):
                node = self.refto(src.choice(self.open))
            else:
                node = self.type(depth)
            f = Field(fn, node)
            if kind == 'td':
                if p.notrequired and src.bool(20):
                    f.notrequired = True
            elif p.defaults and src.bool(40):
                self.default_for(f, kind)
            fields.append(f)
        if recursive:
            self.open.remove(name)
        opt = {}
        # init=False
        if kind in ('dc', 'at') and p.computed and src.bool(10):
            cn = src.choice([i for i in ('total', 'size', 'q') if not any(f.name == i for f in fields)])
            cf = Field(cn, BasicN(int), init=False, computed=str(src.int(0, 9)))
            fields.append(cf)
        if kind in ('dc', 'at') and p.validate and src.bool(12):
            ints = [f for f in fields if f.node.basic and f.node.typ is int and f.init and f is not first]
            ints = [f for f in ints if not f.has_default or f.default_value_safe(self.prog) >= 0]
            if ints:
                opt['validate'] = src.choice(ints).name
                if src.bool(40):
                    opt['error'] = src.choice(('TypeError', 'KeyError', 'AssertionError', 'AttributeError', 'RuntimeError', 'StopIteration', 'OSError', 'IndexError'))
        if kind != 'td':
            fields.sort(key=lambda f: f.has_default)
        if kind == 'dc':
            for o, pc in (('frozen', 20), ('slots', 12), ('kw_only', 10 if p.kwonly else 0)):
                if src.bool(pc):
                    opt[o] = True
            if not p.eq_always and src.bool(5):
                opt['eq'] = False
            if src.bool(10):
                opt['classvars'] = [('cv1', ' = 3')] + ([('cv2', '')] if src.bool() else [])
            if src.bool(10):
                opt['property'] = True
        if kind == 'at':
            opt['style'] = src.weighted([(3, 'define'), (2, 's'), (1, 'frozen'), (1, 'mutable')])
            opt['auto'] = src.bool(50)
            if opt['style'] == 'frozen' or src.bool(10):
                opt['frozen'] = True
            if p.kwonly and src.bool(10):
                opt['kw_only'] = True
            if p.private and src.bool(15):
                for f in fields:
                    if f is first or not f.init or f.name == opt.get('validate') or not src.bool():
                        continue
                    if src.bool(70):
                        f.alias = f.name
                        f.name = '_' + f.name
                    else:
                        f.alias = f.name + 'Param'
        if kind in ('dc', 'at') and src.bool(5):
            opt['sub'] = True
        if kind == 'nt':
            if src.bool(15):
                opt['subclass'] = src.choice((True, 'annotated'))
            elif src.bool(20):
                opt['functional'] = True
        if kind == 'td':
            if (p.notrequired or p.nontotal) and src.bool(20):
                opt['total'] = False
            if src.bool(25):
                opt['functional'] = True
        if p.inherit and kind in ('dc', 'at', 'td') and len(fields) > 1 and src.bool(15) and not opt.get('functional'):
            if kind != 'td' or all(IDENT.match(f.name) and not keyword(f.name) for f in fields):
                opt['inherit'] = src.int(1, len(fields) - 1)
        if kind == 'td' and opt.get('inherit') and p.notrequired and src.bool(40):
            opt['partial'] = True
            for f in fields[:opt['inherit']]:
                if f is not first:
                    f.notrequired = True
        if kind == 'dc' or kind == 'at' and p.norepr:
            for f in fields:
                if src.bool(6):
                    f.repr = False
        if kind == 'td' and any(keyword(f.name) for f in fields):
            opt['functional'] = True
            opt.pop('inherit', None)
        if p.mangling and kind in ('dc', 'at') and src.bool(35):
            self.mangle(fields, nomangle)
        opt.update(force)
        return ObjN(self.prog, kind, fields, name=name, **opt)

    def mangle(self, fields, nomangle=()):
        src = self.src
        keys = ('name', 'alt') if src.bool(20) else ('name',)
        for key in keys:
            if src.bool(15) and len(fields) > 1:
                # swap two names
                a, b = src.sample([f for f in fields], 2)
                if a.name not in nomangle and b.name not in nomangle and not a.names.get(key) and not b.names.get(key):
                    a.names[key], b.names[key] = b.name, a.name
                    continue
            for f in fields:
                if f.name in nomangle or not src.bool(50):
                    continue
                n = src.choice(MANGLED)
                used = {g.dataname(key) for g in fields if g is not f}
                if n in used:
                    continue
                # the python name of another field can be used only if that one is
                # called something else; later fields might still need it
                f.names[key] = n

    def refto(self, name):
        src = self.src
        r = RefN(name)
        k = src.draw(5)
        if k == 0:
            return SeqN(self.prog, 'list', r, 0, maxlen=2)
        if k == 1:
            return DictN(self.prog, BasicN(str), r, 0, maxlen=2)
        if k == 2:
            return SeqN(self.prog, 'tuple', r, 0, maxlen=2)
        if k == 3 and self.p.unions == 'any':
            return UnionN(self.prog, [r, BasicN(int), BasicN(type(None))], 0)
        return UnionN(self.prog, [r, BasicN(type(None))], 2)


def family(src, times=2):
    """Unions of classes that have the same names, but other fields and tags"""
    names = ['F%d' % i for i in range(src.int(2, 3))]
    out = []
    for _ in range(times):
        prog = Prog()
        tag = src.choice(('type', 'kind', 'a'))
        ms = []
        for n in names:
            fs = [Field(tag, LiteralN(src.sample(('q', 'r', 's', 1), src.int(1, 2))))]
            for i in src.sample(('x', 'y', 'z'), src.draw(3)):
                f = Field(i, BasicN(src.choice((int, str, float))))
                if src.bool():
                    f.default = (f.node.value(src),)
                fs.append(f)
            kind = src.choice(('nt', 'dc', 'at', 'td'))
            for f in fs:
                if kind == 'td' and f.default:
                    f.default, f.notrequired = None, True
            fs.sort(key=lambda f: f.has_default)
            ms.append(ObjN(prog, kind, fs, name=n))
        out.append(UnionN(prog, ms, src.draw(2)))
    return out


def enums(src, times=2):
    """Enum classes with the same name, and different annotations"""
    out = []
    for _ in range(times):
        prog = Prog()
        members = []
        for i in range(src.int(1, 3)):
            h = src.choice((TupleN(prog, [BasicN(int), BasicN(int)]), SeqN(prog, 'frozenset', BasicN(int)), SeqN(prog, 'tuple', BasicN(str)),
                            BasicN(int), BasicN(str), TupleN(prog, [BasicN(str), BasicN(int)]), ScalarN('UUID'), None))
            v = h.value(src) if h else src.choice((1, 'a', (1, 2), 3.5))
            if all(not eq(v, w) for _, w, _ in members):
                members.append(('m%d' % i, v, h))
        n = EnumN(prog, members, name='E')
        out.append(src.choice((n, SeqN(prog, 'list', n))))
    return out


def hierarchy(src, prog=None):
    """A class and those that inherit from it, with other types for the same fields"""
    prog = prog or Prog()
    kind = src.choice(('dc', 'dc', 'at', 'td'))
    out = []
    leaf = ObjN(prog, src.choice(('nt', 'dc', 'at')), [Field('i', BasicN(int))], name='Leaf')
    for i in range(src.int(2, 3)):
        parent = src.choice(out) if out else None
        own = []
        for f in src.sample(('x', 'y', 'z', 'w'), src.int(1, 3)):
            if kind == 'td' and parent and any(j.name == f for j in parent.fields):
                continue
            t = src.draw(4)
            n = BasicN(src.choice((int, str, float))) if t == 0 else \
                SeqN(prog, src.choice(('list', 'list', 'tuple')), src.choice((BasicN(int), BasicN(str), leaf, leaf, ScalarN('UUID'))), 0) if t < 3 else \
                DictN(prog, BasicN(str), src.choice((BasicN(int), leaf)), 0)
            own.append(Field(f, n))
            if kind != 'td' and src.bool(30):
                own[-1].names = {'name': f.upper()}
        # The order is that of the parent
        fields = [next((j for j in own if j.name == f.name), f) for f in parent.fields] if parent else []
        fields += [f for f in own if not any(f is j for j in fields)]
        if not fields:
            continue
        out.append(ObjN(prog, kind, fields, name='H%d' % i, parent=parent, own=own))
    return out


def keyword(n):
    import keyword as kw
    return kw.iskeyword(n)


def strkey(n):
    if isinstance(n, NewTypeN):
        return strkey(n.inner)
    if isinstance(n, UnionN):
        return all(map(strkey, n.members))
    if n.basic:
        return n.typ is str
    if isinstance(n, LiteralN):
        return all(type(i) is str for i in n.values)
    if isinstance(n, EnumN):
        return all(type(v) is str for _, v, _ in n.members)
    return isinstance(n, ScalarN)


def litable(node):
    """lit() can write the values"""
    return not any(isinstance(i, (PatternN,)) or isinstance(i, ObjN) and any(not f.init for f in i.fields)
                   for i in node.walk())


# ------------------------------------------------------------------- data

ODD_OBJECTS = {
    'bytes': lambda: b'ab',
    'bytearray': lambda: bytearray(b'12'),
    'complex': lambda: 1j,
    'decimal': lambda: decimal.Decimal('1.5'),
    'fraction': lambda: fractions.Fraction(1, 3),
    'ellipsis': lambda: ...,
    'date': lambda: datetime.date(2020, 1, 1),
    'datetime': lambda: datetime.datetime(2020, 1, 1),
    'timedelta': lambda: datetime.timedelta(1),
    'path': lambda: pathlib.Path('/x'),
    'uuid': lambda: uuid.UUID(int=5),
    'set': lambda: {1, 2},
    'frozenset': lambda: frozenset(('a',)),
    'range': lambda: range(3),
    'memoryview': lambda: memoryview(b'ab'),
    'pattern': lambda: re.compile('a'),
}

STATIC_ODD = {k: f() for k, f in ODD_OBJECTS.items()}


def junk(src, depth=2, odd=True, ns=True):
    """Any data at all"""
    k = src.weighted([(8, 'json'), (3, 'list'), (3, 'dict')] + ([(3, 'odd'), (1, 'lazy'), (1, 'tuple')] if odd else []) +
                     ([(1, 'map')] if ns and odd else []))
    if k == 'json':
        return json_like(src, depth)
    if k == 'list':
        return [junk(src, depth - 1, odd, ns) if depth > 0 else src.int(0, 9) for _ in range(src.size(0, 3))]
    if k == 'tuple':
        return tuple(junk(src, depth - 1, odd, ns) if depth > 0 else src.int(0, 9) for _ in range(src.size(0, 3)))
    if k == 'dict':
        return {junk_key(src, odd): junk(src, depth - 1, odd, ns) if depth > 0 else src.int(0, 9) for _ in range(src.size(0, 3))}
    if k == 'lazy':
        return Lazy(src.choice(('gen', 'iter', 'deque', 'values', 'map')),
                    [junk(src, depth - 1, odd, ns) if depth > 0 else src.int(0, 9) for _ in range(src.size(0, 3))])
    if k == 'map':
        d = {src.choice(('a', 'b', 'x', 'type', 'name')): json_like(src, 1) for _ in range(src.size(0, 3))}
        return src.choice((argparse.Namespace(**d), types.MappingProxyType(d), collections.UserDict(d), collections.OrderedDict(d)))
    return STATIC_ODD[src.choice(list(ODD_OBJECTS))]


def junk_key(src, odd=True):
    return src.choice(('a', 'b', 'x', 'y', 'type', 'name', 'kind', '', 'z') + ((1, 0, None, True, 1.5, (1, 2), b'k') if odd else ()))


def positions(raw, path=()):
    """All the positions in the data"""
    yield path
    if isinstance(raw, Lazy):
        return
    if type(raw) in (list, tuple):
        for i, x in enumerate(raw):
            yield from positions(x, path + (i,))
    elif isinstance(raw, dict):
        for k, x in raw.items():
            yield from positions(x, path + (k,))


def getat(raw, path):
    for p in path:
        raw = raw[p]
    return raw


def setat(raw, path, new):
    """A copy of raw with something else at path"""
    if not path:
        return new
    p = path[0]
    if isinstance(raw, dict):
        r = dict(raw)
        r[p] = setat(raw[p], path[1:], new)
        return r
    r = list(raw)
    r[p] = setat(raw[p], path[1:], new)
    return type(raw)(r)


def corrupt(src, raw, odd=True):
    """One small change somewhere in the data"""
    path = src.choice(list(positions(raw)))
    x = getat(raw, path)
    ops = ['junk', 'json']
    if isinstance(x, dict):
        ops += ['delkey', 'addkey', 'renkey', 'delkey'] if x else ['addkey']
        ops += ['aslist']
    elif type(x) in (list, tuple):
        ops += ['drop', 'append', 'dup', 'rev', 'alike'] if x else ['append', 'alike']
    elif type(x) is str:
        ops += ['upper', 'trunc', 'addch', 'num']
    elif type(x) in (int, float, bool):
        ops += ['neg', 'tostr', 'plus', 'tofloat', 'tobool']
    ops.append('wrap')
    op = src.choice(ops)
    y = x
    if op == 'junk':
        y = junk(src, 1, odd)
    elif op == 'json':
        y = json_like(src, 1)
    elif op == 'delkey':
        y = dict(x)
        del y[src.choice(list(y))]
    elif op == 'addkey':
        y = dict(x)
        y[junk_key(src, odd)] = json_like(src, 1)
    elif op == 'renkey':
        k = src.choice(list(x))
        nk = junk_key(src, odd)
        y = {nk if i is k else i: v for i, v in x.items()}
    elif op == 'aslist':
        y = list(x.values())
    elif op == 'drop':
        y = list(x)
        del y[src.draw(len(y))]
    elif op == 'append':
        y = list(x) + [json_like(src, 1)]
    elif op == 'alike':
        y = list(x) + lookalikes(src)
    elif op == 'dup':
        y = list(x)
        y.insert(0, src.choice(y))
    elif op == 'rev':
        y = list(x)[::-1]
    elif op == 'upper':
        y = x.upper()
    elif op == 'trunc':
        y = x[:-1]
    elif op == 'addch':
        y = x + src.choice(('a', '1', ' ', '\n', '.'))
    elif op == 'num':
        y = src.choice(('1', '2.5', '-3', '1e5', '0'))
    elif op == 'wrap':
        y = [x]
    elif op == 'neg':
        y = -x
    elif op == 'tostr':
        y = str(x)
    elif op == 'plus':
        y = x + 1
    elif op == 'tofloat':
        y = float(x) if abs(x) < 1e300 else 1.5
    elif op == 'tobool':
        y = bool(x)
    return setat(raw, path, y)


def amplify(src, raw):
    """Makes one of the lists, or of the dictionaries, long"""
    paths = []
    for p in positions(raw):
        x = getat(raw, p)
        if x and (type(x) is list or type(x) is dict and all(type(k) is str for k in x)):
            paths.append(p)
    if not paths:
        return raw
    path = src.choice(paths)
    x = getat(raw, path)
    if len(lit(x)) > 500:
        return raw
    n = src.choice((33, 12, 65, 150, 300))
    if type(x) is list:
        new = [x[i % len(x)] for i in range(n)]
    else:
        vs = list(x.values())
        new = dict(x)
        for i in range(n):
            new['k%d' % i] = vs[i % len(vs)]
    return setat(raw, path, new)


def foreign(src, raw, node):
    """Data in which there is, somewhere, a value of one of the types, instead of its encoding"""
    objs = [n for n in node.walk() if not isinstance(n, RefN)]
    if src.bool(60):
        objs = [n for n in objs if isinstance(n, ObjN) and n.kind != 'td'] or objs
    n = src.choice(objs)
    try:
        x = n.value(src)
        if isinstance(n, ObjN) and n.kind != 'td' and src.bool(60):
            # With something wrong in it
            kw = {f.name: v for f, v in n.present(x) if f.init}
            if kw:
                kw[src.choice(list(kw))] = json_like(src, 1)
                x = n.construct(kw)
        if isinstance(n, ObjN) and n.kind == 'nt' and src.bool(20):
            x = tuple(x)
    except Collision:
        return raw
    except (ValueError, TypeError):
        # The constructor checks its parameters
        return raw
    if 'Network' in lit(x):
        # They iterate on all their addresses
        return raw
    ps = list(positions(raw))
    dicts = [p for p in ps if isinstance(getat(raw, p), dict)]
    if dicts and src.bool(60):
        ps = dicts
    return setat(raw, src.choice(ps), x)


def gen_raw(src, node, style, faults=True, odd=True):
    """(data, number of faults)"""
    if faults and src.bool(8):
        return junk(src, 2, odd), 99
    for _ in range(3):
        try:
            v = node.value(src)
            raw = node.raw(src, v, style)
            break
        except Collision:
            continue
    else:
        raise Discard('collision')
    n = 0
    big = faults and src.bool(3)
    if big:
        raw = amplify(src, raw)
    if faults:
        n = src.weighted([(4, 0), (4, 1), (2, 2), (1, 3)])
        for _ in range(n):
            raw = corrupt(src, raw, odd)
    return raw, 99 if big else n


def gen_cfg(src):
    c = Cfg()
    if src.bool(25):
        c.basiccast = False
    if src.bool(25):
        c.failonextra = True
    if src.bool(8):
        c.dictequivalence = False
    if src.bool(10):
        c.mangle_key = src.choice(('alt', 'nope'))
    return c
