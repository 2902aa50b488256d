"""
Generated schemas and an executable specification of typedload over them.

A Node describes one type expression.  It knows
    expr / typ      the source text of the type, and the runtime type
    value(src)      how to draw a valid typed value
    raw(src,v,st)   how to draw json-like data that must load to v
    verdict(raw)    whether load() has to accept raw: OK, BAD or ANY (unspecified)
    match(raw,out)  whether `out` is an admissible result of loading raw
    conforms(out)   whether `out` is a value of the type (whatever raw was)
    dmatch(v,out)   whether `out` is an admissible dump of v

The specification is relational: where the documentation leaves the result open
(order of the alternatives of a union) more than one output is admissible.
Nothing in here looks at the code under test.
"""
import argparse
import collections
import datetime
import enum
import ipaddress
import itertools
import math
import pathlib
import re
import sys
import types
import typing
import uuid

OK, BAD, ANY = 'ok', 'bad', 'any'


class Cfg:
    """Options of the loader, as the specification sees them"""
    def __init__(self, basiccast=True, failonextra=False, dictequivalence=True,
                 uniondebugconflict=False, mangle_key='name'):
        self.basiccast = basiccast
        self.failonextra = failonextra
        self.dictequivalence = dictequivalence
        self.uniondebugconflict = uniondebugconflict
        self.mangle_key = mangle_key

    def kwargs(self):
        d = Cfg()
        return {k: v for k, v in self.__dict__.items() if getattr(d, k) != v}


class DCfg:
    """Options of the dumper"""
    def __init__(self, hidedefault=True, isodates=False, mangle_key='name'):
        self.hidedefault = hidedefault
        self.isodates = isodates
        self.mangle_key = mangle_key

    def kwargs(self):
        d = DCfg()
        return {k: v for k, v in self.__dict__.items() if getattr(d, k) != v}


PRELUDE = '''\
import argparse, collections, datetime, enum, ipaddress, pathlib, re, types, uuid, typing
from argparse import Namespace
from collections import OrderedDict, UserDict, deque
from dataclasses import dataclass, field, InitVar
from datetime import date, time, timedelta, timezone
from enum import Enum, IntEnum, StrEnum
from ipaddress import *
from pathlib import Path, PosixPath
from decimal import Decimal
from fractions import Fraction
from types import MappingProxyType
from typing import *
from uuid import UUID
import attr
'''
_base_ns = {}
exec(PRELUDE, _base_ns)

MODNAME = 'tlv_gen'


def forget():
    """The module typing caches List[Union[int, str]], and returns it also for List[Union[str, int]]"""
    for f in typing._cleanups:
        f()


class Prog:
    """The generated program: class definitions, executed as they are added"""

    def __init__(self, future=False, name=MODNAME):
        forget()
        self.mod = types.ModuleType(name)
        sys.modules[name] = self.mod
        self.ns = self.mod.__dict__
        self.ns.update(_base_ns)
        self.ns['__name__'] = name
        self.lines = []
        self.n = 0
        self.flags = 0
        self.depth = 0        # of the value being generated
        self.maxdepth = 7
        if future:
            import __future__
            self.flags = __future__.annotations.compiler_flag
            self.lines.append('from __future__ import annotations')

    def fresh(self, prefix):
        self.n += 1
        return '%s%d' % (prefix, self.n)

    def add(self, text):
        self.lines.append(text)
        forget()
        exec(compile(text, '<generated>', 'exec', self.flags, True), self.ns)

    def eval(self, expr):
        if '[' in expr or '|' in expr:
            forget()
        return eval(expr, self.ns)

    def source(self):
        return '\n'.join(self.lines)


# --------------------------------------------------------------------------
# values

class Lazy:
    """
    An iterable described by its items, so that the specification can look at
    them without consuming anything.
    """
    KINDS = ('gen', 'iter', 'deque', 'keys', 'values', 'range', 'map')

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items

    def __repr__(self):
        return 'Lazy(%r, %s)' % (self.kind, lit(self.items))

    def make(self):
        items = [materialise(i) for i in self.items]
        if self.kind == 'gen':
            return (i for i in items)
        if self.kind == 'iter':
            return iter(items)
        if self.kind == 'deque':
            return collections.deque(items)
        if self.kind == 'map':
            return map(lambda x: x, items)
        if self.kind == 'keys':
            return dict.fromkeys(items).keys()
        if self.kind == 'values':
            return dict(enumerate(items)).values()
        raise AssertionError(self.kind)


def has_lazy(raw):
    if isinstance(raw, Lazy):
        return True
    if type(raw) in (list, tuple):
        return any(has_lazy(i) for i in raw)
    if type(raw) in (dict, collections.OrderedDict):
        return any(has_lazy(i) for i in raw.values())
    if isinstance(raw, argparse.Namespace):
        return any(has_lazy(i) for i in vars(raw).values())
    if isinstance(raw, (types.MappingProxyType, collections.UserDict)):
        return any(has_lazy(i) for i in raw.values())
    return False


def single_pass(raw):
    """
    Data that can be iterated only once: trying the alternatives of a union
    consumes it
    """
    if isinstance(raw, Lazy):
        return raw.kind in ('gen', 'iter', 'map') or any(map(single_pass, raw.items))
    if type(raw) in (list, tuple):
        return any(map(single_pass, raw))
    if isinstance(raw, argparse.Namespace):
        return any(map(single_pass, vars(raw).values()))
    if isinstance(raw, (dict, types.MappingProxyType, collections.UserDict)):
        return any(map(single_pass, raw.values()))
    return False


def materialise(raw):
    """Fresh concrete data for a description"""
    t = type(raw)
    if t is Lazy:
        return raw.make()
    if t is list:
        return [materialise(i) for i in raw]
    if t is tuple:
        return tuple(materialise(i) for i in raw)
    if t is dict:
        return {k: materialise(v) for k, v in raw.items()}
    if t is collections.OrderedDict:
        return collections.OrderedDict((k, materialise(v)) for k, v in raw.items())
    if t is argparse.Namespace:
        return argparse.Namespace(**{k: materialise(v) for k, v in vars(raw).items()})
    if t is types.MappingProxyType:
        return types.MappingProxyType({k: materialise(v) for k, v in raw.items()})
    if t is collections.UserDict:
        return collections.UserDict({k: materialise(v) for k, v in raw.items()})
    return raw


def same(a, b):
    """Equal, with the same types all the way down. nan is the same as nan"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    if isinstance(a, enum.Enum):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            same(k1, k2) and same(v1, v2) for (k1, v1), (k2, v2) in zip(a.items(), b.items())) or \
            (len(a) == len(b) and all(any(same(k1, k2) and same(v1, v2) for k2, v2 in b.items()) for k1, v1 in a.items()))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(same(i, j) for j in b) for i in a)
    f = obj_fields(a)
    if f is not None:
        return all(same(getattr(a, i, None), getattr(b, i, None)) for i in f)
    if isinstance(a, Lazy):
        return a.kind == b.kind and same(a.items, b.items)
    if isinstance(a, argparse.Namespace):
        return same(vars(a), vars(b))
    if isinstance(a, (types.MappingProxyType, collections.UserDict)):
        return same(dict(a), dict(b))
    try:
        return bool(a == b) or (a != a and b != b and repr(a) == repr(b))
    except Exception:
        return False


def eq(a, b):
    """Structural equality by ==; nan equals nan"""
    if a is b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is type(b):
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(map(eq, a, b))
        if isinstance(a, dict):
            if len(a) != len(b):
                return False
            for k, v in a.items():
                if k in b:
                    if not eq(v, b[k]):
                        return False
                elif not any(eq(k, k2) and eq(v, v2) for k2, v2 in b.items()):
                    return False
            return True
        if isinstance(a, (set, frozenset)):
            return len(a) == len(b) and all(i in b or any(eq(i, j) for j in b) for i in a)
        f = obj_fields(a)
        if f is not None:
            return all(eq(getattr(a, i, None), getattr(b, i, None)) for i in f)
    try:
        return bool(a == b)
    except Exception:
        return False


def obj_fields(a):
    t = type(a)
    if isinstance(a, tuple) and hasattr(t, '_fields'):
        return t._fields
    if hasattr(t, '__dataclass_fields__'):
        import dataclasses
        return [i.name for i in dataclasses.fields(t)]
    if hasattr(t, '__attrs_attrs__'):
        return [i.name for i in t.__attrs_attrs__]
    return None


def lit(v):
    """Source text of a value"""
    try:
        return _lit(v)
    except Exception:
        return 'unprintable %s' % type(v).__name__


def _lit(v):
    t = type(v)
    if t is float:
        if v != v:
            return "float('nan')"
        if v in (math.inf, -math.inf):
            return "float('%s')" % v
        return repr(v)
    if isinstance(v, enum.Enum):
        return '%s.%s' % (t.__name__, v.name)
    if t in (int, str, bool, type(None), bytes):
        if t is str and len(v) > 60 and v == v[0] * len(v):
            return '%r*%d' % (v[0], len(v))
        return repr(v)
    if t is list:
        return '[%s]' % ', '.join(map(lit, v))
    if t is tuple:
        return '(%s%s)' % (', '.join(map(lit, v)), ',' if len(v) == 1 else '')
    if t is dict:
        return '{%s}' % ', '.join('%s: %s' % (lit(k), lit(i)) for k, i in v.items())
    if t is set or t is frozenset:
        items = '[%s]' % ', '.join(sorted(map(lit, v)))
        return '%s(%s)' % (t.__name__, items)
    if t is collections.OrderedDict:
        return 'OrderedDict(%s)' % lit(dict(v))
    if t is types.MappingProxyType:
        return 'MappingProxyType(%s)' % lit(dict(v))
    if t is collections.UserDict:
        return 'UserDict(%s)' % lit(dict(v))
    if t is argparse.Namespace:
        return 'Namespace(**%s)' % lit(vars(v))
    if t is Lazy:
        return {'gen': '(i for i in %s)', 'iter': 'iter(%s)', 'deque': 'deque(%s)', 'map': 'map(lambda x: x, %s)',
                'keys': 'dict.fromkeys(%s).keys()', 'values': 'dict(enumerate(%s)).values()'}[v.kind] % lit(v.items)
    f = obj_fields(v)
    if f is not None:
        initf = getattr(t, '__tlv_init__', None) or dict(zip(f, f))
        return '%s(%s)' % (t.__name__, ', '.join('%s=%s' % (initf[k], lit(getattr(v, k, None))) for k in f if k in initf))
    if isinstance(v, re.Pattern):
        return 're.compile(%r)' % v.pattern
    return repr(v)


def is_mapping(raw, cfg):
    """The data as a dict, if load() can see it as an object"""
    if isinstance(raw, dict):
        return raw
    if isinstance(raw, argparse.Namespace):
        return dict(vars(raw)) if cfg.dictequivalence else None
    if isinstance(raw, (types.MappingProxyType, collections.UserDict)):
        return dict(raw)
    return None


def iter_items(raw):
    """
    (items, verdict): the items load() iterates on. verdict is OK, BAD or ANY
    """
    if isinstance(raw, Lazy):
        return list(raw.items), OK
    if isinstance(raw, dict):
        return None, BAD
    if isinstance(raw, (types.MappingProxyType, collections.UserDict)):
        return None, ANY
    if isinstance(raw, (list, tuple, str, bytes, bytearray, set, frozenset, range, collections.deque)):
        return list(raw), OK
    if raw is None or isinstance(raw, (int, float, argparse.Namespace, datetime.date, datetime.time,
                                       datetime.timedelta, pathlib.PurePath, re.Pattern, uuid.UUID, enum.Enum, type)):
        return None, BAD
    try:
        iter(raw)
    except TypeError:
        return None, BAD
    return None, ANY


def worst(vs):
    r = OK
    for v in vs:
        if v == BAD:
            return BAD
        if v == ANY:
            r = ANY
    return r


ALIKE = ((1, True, 1.0, 1), (0, False, 0.0, -0.0), ('1', 1, 'True', True, 1.0), (1, 1.0), (2, 2.0, '2'), ([1], [True], [1.0]), ((1,), (True,), [1]),
         (None, 'None', 0, False, ''))


def lookalikes(src, node=None):
    """Items that are equal, or look so, and must be converted separately"""
    s = src.choice(ALIKE)
    return [src.choice(s) for _ in range(src.int(2, 4))]


class Style:
    """How raw() may dress a value up"""
    def __init__(self, cast=False, seqs=False, maps=False, iso=None, cfg=None, omit_defaults=True, extra=False, lookalikes=False):
        self.cast = cast          # basic types may come as other basic types
        self.seqs = seqs          # iterables may be of any kind
        self.maps = maps          # objects may be Namespace or other mappings
        self.iso = iso            # True, False, or None (either) for dates
        self.cfg = cfg or Cfg()
        self.omit_defaults = omit_defaults
        self.extra = extra        # add unknown keys
        self.lookalikes = lookalikes   # add items which are equal, but are not the same


# --------------------------------------------------------------------------
# nodes

class Node:
    hashable = True       # values can be in a set
    keyable = True        # the raw form can be a dictionary key
    dumpkey = True        # the dump can be a dictionary key
    basic = False
    has_union = False
    children = ()
    prog = None

    def typ_(self):
        return self.typ

    def walk(self, seen=None):
        seen = set() if seen is None else seen
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        for c in self.children:
            yield from c.walk(seen)

    def any_union(self):
        return any(isinstance(i, UnionN) for i in self.walk())

    def contains(self, *classes):
        return any(isinstance(i, classes) for i in self.walk())

    def __repr__(self):
        return '<%s>' % self.expr


INTS = (0, 1, 2, 3, -1, 7, 42, 10, 255, -128, 2**31, -2**31 - 1, 2**53 + 1, 2**63, -2**64, 10**30)
FLOATS = (0.0, 1.0, 0.5, -1.5, 3.0, 1e300, -0.0, 5e-324, 0.1, 123456.789, math.inf, -math.inf, 2.0**53, 1e16)
STRS = ('', 'a', 'b', 'foo', 'type', 'x y', '1', '-1', '1.5', '0', 'true', 'None', 'nan', 'é', 'ß', '日本', '😀', '\n',
        "'", '"', '\\', '\x00', ' 12 ', '1_0', '\ud800', 'a' * 70, '[1]', '{}', 'A', '٣', 'inf', '1e3', '0x10', '%s', '{x}', '.')


class BasicN(Node):
    basic = True

    def __init__(self, t):
        self.typ = t
        self.expr = 'None' if t is type(None) else t.__name__

    def value(self, src):
        t = self.typ
        if t is type(None):
            return None
        if t is bool:
            return src.bool()
        if t is int:
            return src.choice(INTS) if src.draw(3) else src.int(-20, 100)
        if t is float:
            if src.draw(3):
                return src.choice(FLOATS)
            return src.int(-1000, 1000) / 8
        if t is str:
            if src.draw(4):
                return src.choice(STRS)
            return ''.join(src.choice('abcxyz019 ._-é') for _ in range(src.size(0, 6)))
        raise AssertionError(t)

    def raw(self, src, v, st):
        if st.cast and st.cfg.basiccast and src.bool(40):
            t = self.typ
            c = []
            if t is int:
                c = [str(v), ' %d ' % v]
                if abs(v) < 2**53:
                    c.append(float(v))
                if v in (0, 1):
                    c.append(bool(v))
            elif t is float and v == v:
                c = [repr(v)]
                if v in (math.inf, -math.inf):
                    pass
                elif v == int(v) and abs(v) < 2**53 and math.copysign(1, v) == (1 if v >= 0 else -1):
                    if not (v == 0 and math.copysign(1, v) < 0):
                        c.append(int(v))
            elif t is bool:
                c = [1, 'x', [0], 2.5, {'a': 1}] if v else [0, '', [], 0.0, None, {}]
            elif t is str:
                try:
                    if str(int(v)) == v:
                        c.append(int(v))
                except ValueError:
                    pass
                if v == 'None':
                    c.append(None)
                if v in ('1.5', 'inf', 'nan'):
                    c.append(float(v))
            if c:
                return src.choice(c)
        return v

    def cast(self, raw):
        """(ok, value)"""
        try:
            return True, self.typ(materialise(raw))
        except Exception:
            return False, None

    def verdict(self, raw, cfg, loose=False):
        if type(raw) is self.typ:
            return OK
        if self.typ is type(None):
            return BAD
        if loose and isinstance(raw, self.typ):
            return OK if cfg.basiccast else ANY
        if not cfg.basiccast:
            return BAD
        return OK if self.cast(raw)[0] else BAD

    def match(self, raw, out, cfg, loose=False):
        if type(raw) is self.typ:
            return None if same(out, raw) else 'expected %s got %s' % (lit(raw), lit(out))
        if loose and isinstance(raw, self.typ) and same(raw, out):
            return None
        if has_lazy(raw):
            return None if type(out) is self.typ else 'expected a %s' % self.expr   # str(generator)
        ok, x = self.cast(raw)
        if ok and same(out, x):
            return None
        return 'expected %s got %s' % (lit(x), lit(out))

    def conforms(self, out):
        return None if isinstance(out, self.typ) else '%s is not a %s' % (lit(out), self.expr)

    def dmatch(self, v, out, d):
        return None if same(v, out) else 'dumped %s as %s' % (lit(v), lit(out))


class AnyN(Node):
    expr = 'Any'
    typ = typing.Any
    hashable = False
    keyable = False

    def value(self, src):
        return json_like(src, 2)

    def raw(self, src, v, st):
        return v

    def verdict(self, raw, cfg, loose=False):
        return OK

    def match(self, raw, out, cfg, loose=False):
        if has_lazy(raw):
            return None
        return None if same(raw, out) else 'Any changed %s into %s' % (lit(raw), lit(out))

    def conforms(self, out):
        return None

    def dmatch(self, v, out, d):
        return dmatch_plain(v, out)


def dmatch_plain(v, out):
    """dump of json-like data"""
    if isinstance(v, (list, tuple)):
        if type(out) is not list or len(out) != len(v):
            return 'dumped %s as %s' % (lit(v), lit(out))
        return first(dmatch_plain(i, o) for i, o in zip(v, out))
    if isinstance(v, dict):
        if type(out) is not dict or len(out) != len(v):
            return 'dumped %s as %s' % (lit(v), lit(out))
        for k, i in v.items():
            if k not in out:
                return 'key %s not in dump %s' % (lit(k), lit(out))
            r = dmatch_plain(i, out[k])
            if r:
                return r
        return None
    return None if same(v, out) else 'dumped %s as %s' % (lit(v), lit(out))


def first(it):
    for i in it:
        if i:
            return i
    return None


def json_like(src, depth, keys=('a', 'b', 'x', 'type', 'k', '')):
    k = src.weighted([(4, 'int'), (3, 'str'), (2, 'float'), (2, 'bool'), (2, 'none'), (1, 'text')] +
                     ([(3, 'list'), (3, 'dict')] if depth else []))
    if k == 'none':
        return None
    if k == 'text':
        # It looks like something else
        v = src.choice((' x ', '\t1', 'x\n', ' null ', '[1]', '{"a": 1}', '1e3', 'true', '2020-01-01', ' ', '0x10', 'X', '1_000'))
        return src.choice((v, v, [v], {'k': v}, [[v]])) if depth else v
    if k == 'list':
        return [json_like(src, depth - 1) for _ in range(src.size(0, 3))]
    if k == 'dict':
        return {src.choice(keys): json_like(src, depth - 1) for _ in range(src.size(0, 3))}
    return BasicN({'int': int, 'str': str, 'float': float, 'bool': bool}[k]).value(src)


class LiteralN(Node):
    def __init__(self, values):
        self.values = values
        self.expr = 'Literal[%s]' % ', '.join(map(lit, values))
        self.typ = typing.Literal[tuple(values)]

    def value(self, src):
        return src.choice(self.values)

    def raw(self, src, v, st):
        return v

    def verdict(self, raw, cfg, loose=False):
        return OK if any(raw == i for i in self.values) else BAD

    def match(self, raw, out, cfg, loose=False):
        return None if out == raw and out in self.values and not isinstance(out, (list, dict)) else \
            'expected %s got %s' % (lit(raw), lit(out))

    def conforms(self, out):
        try:
            return None if any(out == i for i in self.values) else '%s is not one of %s' % (lit(out), self.expr)
        except Exception as e:
            return repr(e)

    def dmatch(self, v, out, d):
        return None if same(v, out) else 'dumped %s as %s' % (lit(v), lit(out))


class EnumN(Node):
    """members: [(name, value, hint node or None)]"""

    def __init__(self, prog, members, base='Enum', name=None):
        self.base = base
        self.prog = prog
        self.name = self.expr = name or prog.fresh('E')
        text = 'class %s(%s):\n' % (self.name, base)
        for n, v, h in members:
            text += '    %s%s = %s\n' % (n, ': ' + h.expr if h else '', lit(v))
        prog.add(text)
        self.typ = prog.ns[self.name]
        self.members = members
        self.hints = []
        for n, v, h in members:
            if h and not any(h.typ == i.typ for i in self.hints):
                self.hints.append(h)
        self.dumpkey = self.keyable = not any(isinstance(v, (tuple, list)) for _, v, _ in members)

    def value(self, src):
        return src.choice(list(self.typ))

    def raw(self, src, v, st):
        x = v.value
        if isinstance(x, tuple):
            h = [h for _, y, h in self.members if h and y == x]
            if h and src.bool():
                return list(x)
        elif not isinstance(x, (str, int, float, list, type(None))):
            # They are what the hint gives
            return next(h for _, y, h in self.members if h and y == x).raw(src, x, st)
        return x

    def _byvalue(self, raw):
        if isinstance(raw, Lazy):
            return None
        for m in self.typ:
            try:
                if m is raw:
                    return m
                if m.value == raw:
                    return m
            except Exception:
                pass
        return None

    def _candidates(self, raw, cfg):
        """members that raw can become through the hints of the enum"""
        r = []
        unsure = False
        for h in self.hints:
            v = h.verdict(raw, cfg)
            if v == BAD:
                continue
            found = [m for m in self.typ if h.match(raw, m.value, cfg) is None]
            if v == ANY:
                unsure = True
            r.extend(found)
            if not found:
                # 1 == True and so on: could still be equal to the value of a member
                unsure = unsure or any(h.match(raw, t(m.value), cfg) is None
                                       for m in self.typ if isinstance(m.value, (int, float))
                                       for t in (int, float, bool))
        return r, unsure

    def verdict(self, raw, cfg, loose=False):
        if has_lazy(raw):
            return ANY
        if self._byvalue(raw) is not None:
            return OK
        if raw != raw:
            return ANY
        c, unsure = self._candidates(raw, cfg)
        if unsure:
            return ANY
        return OK if c else BAD

    def match(self, raw, out, cfg, loose=False):
        if has_lazy(raw):
            return self.conforms(out)
        m = self._byvalue(raw)
        if m is not None:
            return None if out is m else 'expected %s got %s' % (m, lit(out))
        c, unsure = self._candidates(raw, cfg)
        if any(out is i for i in c):
            return None
        if unsure and type(out) is self.typ:
            return None
        return 'expected one of %s got %s' % (c, lit(out))

    def conforms(self, out):
        return None if type(out) is self.typ else '%s is not a %s' % (lit(out), self.expr)

    def dmatch(self, v, out, d):
        for _, y, h in self.members:
            if isinstance(h, ScalarN) and y == v.value:
                return h.dmatch(y, out, d)
        return dmatch_plain(v.value, out)


class ScalarN(Node):
    """
    Types constructed from one string; the spec is the constructor itself.
    """
    POOL = {
        'Path': (pathlib.Path, ('/', '/tmp/a', 'a', '.', '..', 'a/b', 'a b', 'é', '/tmp/../x', 'C:\\x')),
        'IPv4Address': (ipaddress.IPv4Address, ('10.0.0.1', '255.255.255.255', '0.0.0.0', '127.0.0.1')),
        'IPv6Address': (ipaddress.IPv6Address, ('::1', 'fe80::123', '::', '2001:db8::ff00:42:8329', 'fe80::1%eth0')),
        'IPv4Network': (ipaddress.IPv4Network, ('10.0.0.0/8', '10.10.10.1/32', '0.0.0.0/0', '192.168.0.0/16')),
        'IPv6Network': (ipaddress.IPv6Network, ('fe80::/64', '::/0', '::1/128')),
        'IPv4Interface': (ipaddress.IPv4Interface, ('10.10.10.1/24', '10.10.10.1/32', '1.2.3.4/0')),
        'IPv6Interface': (ipaddress.IPv6Interface, ('fe80::123/64', '::1/128')),
        'UUID': (uuid.UUID, ('631b09cb-016e-11ef-97ce-000000000001', '00000000-0000-0000-0000-000000000000')),
    }
    ODD = ('', 'x', '10.0.0.256', '10.0.0.1/33', '1.2.3', '::g', 'fe80::/129', '10.10.10.1/24', 'fe80::123/64',
           '631b09cb016e11ef97ce000000000001', '{631b09cb-016e-11ef-97ce-000000000001}', '0', '1', ' 10.0.0.1',
           '010.0.0.1', '10.0.0.1 ', '::ffff:1.2.3.4', '1' * 32, 'a\x00b', '\ud800', '/a', 'urn:uuid:' + '0' * 32)

    def __init__(self, name):
        self.expr = name
        self.typ, self.strings = self.POOL[name]

    def value(self, src):
        return self.typ(src.choice(self.strings))

    def raw(self, src, v, st):
        return str(v)

    def verdict(self, raw, cfg, loose=False):
        if isinstance(raw, Lazy):
            return ANY
        try:
            self.typ(raw)
            return OK if isinstance(raw, str) else ANY
        except Exception:
            return BAD

    def match(self, raw, out, cfg, loose=False):
        if isinstance(raw, Lazy):
            return self.conforms(out)
        x = self.typ(raw)
        return None if same(x, out) else 'expected %s got %s' % (lit(x), lit(out))

    def conforms(self, out):
        return None if isinstance(out, self.typ) else '%s is not a %s' % (lit(out), self.expr)

    def dmatch(self, v, out, d):
        return None if same(str(v), out) else 'dumped %s as %s' % (lit(v), lit(out))


class StrConstructedN(ScalarN):
    """User class to be added to strconstructed"""

    EXTRA = ('    def __format__(self, spec): return "F" + self.s\n', '    def __bool__(self): return False\n',
             '    def __len__(self): return 0\n', '    def __iter__(self): return iter(self.s)\n',
             '    def __repr__(self): return "an object"\n', '    def __bytes__(self): return b"bytes"\n',
             '    def __getitem__(self, i): return self.s[i]\n', '    def __int__(self): return 3\n',
             '    def __fspath__(self): return "/path"\n', '    def __contains__(self, i): return True\n',
             '    def __call__(self, *a): return "called"\n', '    value = "val"\n', '    def keys(self): return ["a"]\n',
             '    def __float__(self): return 1.5\n    def __index__(self): return 4\n')

    def __init__(self, prog, extra=''):
        self.name = self.expr = prog.fresh('S')
        prog.add('class %s:\n'
                 '    def __init__(self, s):\n'
                 '        if not isinstance(s, str): raise TypeError("str expected")\n'
                 '        if "!" in s: raise ValueError("invalid")\n'
                 '        if "?" in s: raise KeyError("invalid")\n'
                 '        self.s = s\n'
                 '    def __str__(self): return self.s\n'
                 '    def __repr__(self): return "%s(%%r)" %% self.s\n'
                 '    def __eq__(self, o): return type(o) == type(self) and o.s == self.s\n'
                 '    def __hash__(self): return hash(self.s)\n%s' % (self.name, self.name, extra))
        self.typ = prog.ns[self.name]
        self.strings = ('', 'a', 'b c', '12', 'é')


class PatternN(Node):
    PATTERNS = ('', 'a+', r'[bc](at|ot)\d+', '^$', '(?i)x', 'é', '(?P<n>.)(?P=n)', '\\.')
    ODD = ('((((', '*', '[', '(?P<a>x)(?P<a>y)', 'a{99999999999999999999}', '\\', '(?<=a+)b', 'a**', '(?z)')

    def __init__(self, kind, nobytes=False):
        self.kind = kind
        self.nobytes = nobytes
        self.expr = {None: 're.Pattern', str: 're.Pattern[str]', bytes: 're.Pattern[bytes]',
                     'tstr': 'Pattern[str]'}[kind]
        self.typ = {None: re.Pattern, str: re.Pattern[str], bytes: re.Pattern[bytes], 'tstr': typing.Pattern[str]}[kind]

    def value(self, src):
        p = src.choice(self.PATTERNS)
        if self.kind is bytes or self.kind is None and src.bool(20) and not self.nobytes:
            return re.compile(p.encode('ascii', 'ignore'))
        return re.compile(p)

    def raw(self, src, v, st):
        return v.pattern

    def verdict(self, raw, cfg, loose=False):
        if type(raw) not in (str, bytes):
            return ANY if isinstance(raw, (re.Pattern, Lazy)) else BAD
        want = {None: (str, bytes), str: (str,), bytes: (bytes,), 'tstr': (str,)}[self.kind]
        if type(raw) not in want:
            return BAD
        try:
            re.compile(raw)
            return OK
        except Exception:
            return BAD

    def match(self, raw, out, cfg, loose=False):
        if not isinstance(raw, (str, bytes)):
            return self.conforms(out)
        return None if out == re.compile(raw) else 'expected %s got %s' % (lit(raw), lit(out))

    def conforms(self, out):
        if not isinstance(out, re.Pattern):
            return '%s is not a pattern' % lit(out)
        want = {None: (str, bytes), str: (str,), bytes: (bytes,), 'tstr': (str,)}[self.kind]
        return None if isinstance(out.pattern, want) else '%s is not a %s' % (lit(out), self.expr)

    def dmatch(self, v, out, d):
        return None if same(v.pattern, out) else 'dumped %s as %s' % (lit(v), lit(out))


class DateN(Node):
    EXPR = {'date': datetime.date, 'time': datetime.time, 'datetime': datetime.datetime}

    def __init__(self, kind, tz=True):
        self.kind = kind
        self.expr = 'datetime.' + kind
        self.typ = self.EXPR[kind]
        self.tz = tz

    dumpkey = False
    ODD = ('', '2020-13-01', '2020-02-30', '25:00', '2020-01-01T', 'now', '2020-1-1', '99999-01-01', '2020-01-01T24:00:01',
           '12:00+99:00', '2020-W01-1', '20200101', '2020-01-01T00:00:00Z', '12', '2020-01-01', '10:20:30', '2020-01-01 10:20')

    def value(self, src):
        k = self.kind
        y, m, d = src.choice((2020, 1, 9999, 1970, 2024, 1999)), src.choice((1, 2, 12, 7)), src.choice((1, 28, 15))
        if k == 'date':
            return datetime.date(y, m, d)
        t = (src.choice((0, 23, 12)), src.choice((0, 59, 7)), src.choice((0, 59, 30)), src.choice((0, 999999, 1, 500000, 1000)))
        tz = None
        if self.tz and src.bool(30):
            tz = datetime.timezone(datetime.timedelta(minutes=src.choice((0, 60, -330, 14 * 60, -1, 1439))))
        if k == 'time':
            return datetime.time(*t, tzinfo=tz)
        return datetime.datetime(y, m, d, *t, tzinfo=tz)

    def raw(self, src, v, st):
        aware = getattr(v, 'tzinfo', None) is not None
        iso = True if aware or st.iso else (src.bool() if st.iso is None else False)
        if iso:
            return v.isoformat()
        return self.aslist(v)

    def aslist(self, v):
        if self.kind == 'date':
            return [v.year, v.month, v.day]
        if self.kind == 'time':
            return [v.hour, v.minute, v.second, v.microsecond]
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]

    def _load(self, raw):
        if type(raw) is str:
            return True, self.typ.fromisoformat(raw)
        if type(raw) in (list, tuple) and all(type(i) is int for i in raw):
            return True, self.typ(*raw)
        return False, None

    def verdict(self, raw, cfg, loose=False):
        try:
            known, v = self._load(raw)
        except Exception:
            return BAD
        if known:
            return OK
        if raw is None or isinstance(raw, (bool, int, float)):
            return BAD
        return ANY     # any other iterable is passed to the constructor

    def match(self, raw, out, cfg, loose=False):
        known, v = self._load(raw)
        if not known:
            return self.conforms(out)
        return None if same(v, out) and v.isoformat() == out.isoformat() else 'expected %s got %s' % (lit(v), lit(out))

    def conforms(self, out):
        if type(out) is not self.typ:
            return '%s is not a %s' % (lit(out), self.expr)
        return None

    def dmatch(self, v, out, d):
        want = v.isoformat() if d.isodates else self.aslist(v)
        return None if same(want, out) else 'dumped %s as %s' % (lit(v), lit(out))


class TimedeltaN(Node):
    expr = 'datetime.timedelta'
    typ = datetime.timedelta

    def value(self, src):
        return datetime.timedelta(
            seconds=src.choice((0, 1, 59, 86400, -1, 3600 * 24 * 3650, 123456, -86399, 2 ** 31, 2 ** 32 + 1, -2 ** 31 - 1, 2 ** 33 - 1)),
            microseconds=src.choice((0, 1, 999999, 500000, 123456)))

    def raw(self, src, v, st):
        s = v.total_seconds()
        if s == int(s) and src.bool():
            return int(s)
        return s

    def verdict(self, raw, cfg, loose=False):
        if type(raw) in (int, float):
            try:
                datetime.timedelta(seconds=raw)
                return OK
            except Exception:
                return BAD
        if isinstance(raw, (int, float)):
            # bool, enums of int
            return ANY
        return BAD

    def match(self, raw, out, cfg, loose=False):
        x = datetime.timedelta(seconds=raw)
        return None if same(x, out) else 'expected %s got %s' % (lit(x), lit(out))

    def conforms(self, out):
        return None if type(out) is self.typ else '%s is not a timedelta' % lit(out)

    def dmatch(self, v, out, d):
        return None if same(v.total_seconds(), out) else 'dumped %s as %s' % (lit(v), lit(out))


class NewTypeN(Node):
    def __init__(self, prog, inner):
        self.inner = inner
        self.children = (inner,)
        self.name = self.expr = prog.fresh('N')
        # Some have the same name, like those of different modules
        same_name = self.name[-1:] in '147'
        prog.add('%s = NewType(%r, %s)' % (self.name, 'Same' if same_name else self.name, inner.expr))
        self.typ = prog.ns[self.name]
        self.hashable, self.keyable, self.dumpkey = inner.hashable, inner.keyable, inner.dumpkey

    def value(self, src):
        return self.inner.value(src)

    def raw(self, src, v, st):
        return self.inner.raw(src, v, st)

    def verdict(self, raw, cfg, loose=False):
        return self.inner.verdict(raw, cfg)

    def match(self, raw, out, cfg, loose=False):
        return self.inner.match(raw, out, cfg)

    def conforms(self, out):
        return self.inner.conforms(out)

    def dmatch(self, v, out, d):
        return self.inner.dmatch(v, out, d)


class RefN(Node):
    """Forward reference, 'Name'"""
    keyable = hashable = dumpkey = False

    def __init__(self, name):
        self.name = name
        self.expr = repr(name)
        self.target = None

    @property
    def typ(self):
        return typing.ForwardRef(self.name)

    def value(self, src):
        return self.target.value(src)

    def raw(self, src, v, st):
        return self.target.raw(src, v, st)

    def verdict(self, raw, cfg, loose=False):
        return self.target.verdict(raw, cfg)

    def match(self, raw, out, cfg, loose=False):
        return self.target.match(raw, out, cfg)

    def conforms(self, out):
        return self.target.conforms(out)

    def dmatch(self, v, out, d):
        return self.target.dmatch(v, out, d)

    def walk(self, seen=None):
        seen = set() if seen is None else seen
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        if self.target is not None:
            yield from self.target.walk(seen)


class SeqN(Node):
    """list, set, frozenset and tuple[x, ...]"""
    keyable = False
    dumpkey = False
    NAMES = {'list': ('List[%s]', 'list[%s]'), 'set': ('Set[%s]', 'set[%s]'),
             'frozenset': ('FrozenSet[%s]', 'frozenset[%s]'), 'tuple': ('Tuple[%s, ...]', 'tuple[%s, ...]')}

    def __init__(self, prog, kind, inner, spelling=0, maxlen=4):
        self.kind = kind
        self.inner = inner
        self.children = (inner,)
        if isinstance(inner, RefN):
            spelling = 0
        self.spelling = spelling
        self.expr = self.NAMES[kind][spelling] % inner.expr
        self.typ = prog.eval(self.expr)
        self.py = {'list': list, 'set': set, 'frozenset': frozenset, 'tuple': tuple}[kind]
        self.unordered = kind in ('set', 'frozenset')
        self.hashable = kind in ('frozenset', 'tuple') and inner.hashable
        self.maxlen = maxlen
        if kind == 'tuple':
            self.keyable = inner.keyable

    def value(self, src):
        return self.py([self.inner.value(src) for _ in range(src.size(0, self.maxlen))])

    def raw(self, src, v, st):
        items = [self.inner.raw(src, i, st) for i in v]
        if self.unordered:
            items = src.shuffle(items)
        if st.lookalikes and src.bool(15):
            items += lookalikes(src, self.inner)
        return dress_seq(src, items, st)

    def verdict(self, raw, cfg, loose=False):
        items, r = iter_items(raw)
        if r != OK:
            return r
        return worst(self.inner.verdict(i, cfg, True) for i in items)

    def match(self, raw, out, cfg, loose=False):
        if type(out) is not self.py:
            return 'expected a %s got %s' % (self.kind, lit(out))
        items, r = iter_items(raw)
        if r != OK:
            return self.conforms(out)
        if self.unordered:
            for i in items:
                if all(self.inner.match(i, o, cfg, True) for o in out) and \
                        not any(eq_key(self.inner, i, o, cfg) for o in out):
                    return 'nothing in %s corresponds to item %s' % (lit(out), lit(i))
            for o in out:
                if all(self.inner.match(i, o, cfg, True) for i in items):
                    return 'item %s of the result corresponds to nothing' % lit(o)
            return None
        if len(out) != len(items):
            return 'expected %d items, got %s' % (len(items), lit(out))
        return first(self.inner.match(i, o, cfg, True) for i, o in zip(items, out))

    def conforms(self, out):
        if type(out) is not self.py:
            return '%s is not a %s' % (lit(out), self.kind)
        return first(map(self.inner.conforms, out))

    def dmatch(self, v, out, d):
        if type(out) is not list:
            return '%s dumped as %s' % (lit(v), lit(out))
        if len(v) != len(out):
            return '%s dumped as %s' % (lit(v), lit(out))
        if self.unordered:
            # iteration order of the very same set object is stable
            for i in v:
                if all(self.inner.dmatch(i, o, d) for o in out):
                    return 'no dump of %s in %s' % (lit(i), lit(out))
            for o in out:
                if all(self.inner.dmatch(i, o, d) for i in v):
                    return '%s in the dump corresponds to nothing' % lit(o)
            return None
        return first(self.inner.dmatch(i, o, d) for i, o in zip(v, out))


def dress_seq(src, items, st):
    if not st.seqs or src.bool(50):
        return items
    k = src.choice(('tuple', 'gen', 'iter', 'deque', 'values', 'map', 'keys', 'str', 'range', 'set'))
    if k == 'tuple':
        return tuple(items)
    if k == 'str':
        if items and all(type(i) is str and len(i) == 1 for i in items):
            return ''.join(items)
        return tuple(items)
    if k == 'range':
        if items and all(type(i) is int for i in items) and items == list(range(items[0], items[0] + len(items))):
            return range(items[0], items[0] + len(items))
        return tuple(items)
    if k in ('keys', 'set'):
        try:
            if has_lazy(items):
                return items
            hash(tuple(items))
            # 1 == True: would drop items
            if len(set(items)) != len(items):
                return items
        except TypeError:
            return items
        if k == 'set':
            return items
    return Lazy(k, items)


class TupleN(Node):
    """Tuple of finite size"""
    keyable = False
    dumpkey = False

    def __init__(self, prog, inners, spelling=0):
        self.inners = inners
        self.children = tuple(inners)
        if any(isinstance(i, RefN) for i in inners):
            spelling = 0
        self.expr = ('Tuple[%s]', 'tuple[%s]')[spelling] % (', '.join(i.expr for i in inners) or '()')
        self.typ = prog.eval(self.expr)
        self.hashable = all(i.hashable for i in inners)
        self.keyable = all(i.keyable for i in inners)

    def value(self, src):
        return tuple(i.value(src) for i in self.inners)

    def raw(self, src, v, st):
        items = [n.raw(src, i, st) for n, i in zip(self.inners, v)]
        if st.seqs and src.bool(30):
            return tuple(items)
        if st.seqs and src.bool(10):
            return Lazy('deque', items)
        return items

    @staticmethod
    def sized(raw):
        if isinstance(raw, Lazy):
            if raw.kind in ('gen', 'iter', 'map'):
                return None, ANY
            return list(raw.items), OK
        return iter_items(raw)

    def verdict(self, raw, cfg, loose=False):
        items, r = self.sized(raw)
        if r != OK:
            return r
        if len(items) < len(self.inners):
            return BAD
        if cfg.failonextra and len(items) > len(self.inners):
            return BAD
        return worst(n.verdict(i, cfg) for n, i in zip(self.inners, items))

    def match(self, raw, out, cfg, loose=False):
        if type(out) is not tuple or len(out) != len(self.inners):
            return 'expected a tuple of %d, got %s' % (len(self.inners), lit(out))
        items, r = self.sized(raw)
        if r != OK:
            return self.conforms(out)
        return first(n.match(i, o, cfg) for n, i, o in zip(self.inners, items, out))

    def conforms(self, out):
        if type(out) is not tuple or len(out) != len(self.inners):
            return '%s is not a tuple of %d' % (lit(out), len(self.inners))
        return first(n.conforms(o) for n, o in zip(self.inners, out))

    def dmatch(self, v, out, d):
        if type(out) is not list or len(v) != len(out):
            return '%s dumped as %s' % (lit(v), lit(out))
        return first(n.dmatch(i, o, d) for n, i, o in zip(self.inners, v, out))


class DictN(Node):
    hashable = keyable = dumpkey = False

    def __init__(self, prog, key, val, spelling=0, maxlen=3):
        self.key = key
        self.val = val
        self.children = (key, val)
        if isinstance(val, RefN):
            spelling = 0
        self.expr = ('Dict[%s, %s]', 'dict[%s, %s]')[spelling] % (key.expr, val.expr)
        self.typ = prog.eval(self.expr)
        self.maxlen = maxlen

    def value(self, src):
        return {self.key.value(src): self.val.value(src) for _ in range(src.size(0, self.maxlen))}

    def raw(self, src, v, st):
        r = {}
        for k, i in v.items():
            rk = tuplify(self.key.raw(src, k, st))
            if unhashable(rk) or rk in r:
                rk = tuplify(self.key.raw(src, k, Style(cfg=st.cfg, iso=st.iso)))
                if unhashable(rk) or rk in r:
                    raise Collision
            r[rk] = self.val.raw(src, i, st)
        return dress_map(src, r, st)

    def verdict(self, raw, cfg, loose=False):
        m = is_mapping(raw, cfg)
        if m is None:
            return BAD
        return worst([self.key.verdict(k, cfg, True) for k in m] + [self.val.verdict(v, cfg, True) for v in m.values()])

    def match(self, raw, out, cfg, loose=False):
        if type(out) is not dict:
            return 'expected a dict, got %s' % lit(out)
        m = is_mapping(raw, cfg)
        if len(m) == len(out):
            for (k, v), (ko, vo) in zip(m.items(), out.items()):
                r = self.key.match(k, ko, cfg, True)
                if r:
                    return 'key: ' + r
                r = self.val.match(v, vo, cfg, True)
                if r:
                    return r
            return None
        # some keys became equal
        if len(out) > len(m):
            return 'too many items in %s' % lit(out)
        for ko, vo in out.items():
            if not any(self.key.match(k, ko, cfg, True) is None for k in m) or \
                    not any((self.key.match(k, ko, cfg, True) is None or eq_key(self.key, k, ko, cfg)) and
                            self.val.match(v, vo, cfg, True) is None for k, v in m.items()):
                return 'pair %s: %s corresponds to nothing' % (lit(ko), lit(vo))
        for k in m:
            if not any(self.key.match(k, ko, cfg, True) is None or eq_key(self.key, k, ko, cfg) for ko in out):
                return 'key %s is lost in %s' % (lit(k), lit(out))
        return None

    def conforms(self, out):
        if type(out) is not dict:
            return '%s is not a dict' % lit(out)
        return first(map(self.key.conforms, out.keys())) or first(map(self.val.conforms, out.values()))

    def dmatch(self, v, out, d):
        if type(out) is not dict:
            return '%s dumped as %s' % (lit(v), lit(out))
        if len(v) != len(out):
            return None if len(out) < len(v) and self.key_collides(v, d) else '%s dumped as %s' % (lit(v), lit(out))
        for (k, i), (ko, o) in zip(v.items(), out.items()):
            r = self.key.dmatch(k, ko, d) or self.val.dmatch(i, o, d)
            if r:
                return r
        return None

    def key_collides(self, v, d):
        # Keys of different types that dump to equal values
        return not self.key.basic


def variants(o):
    """Values of other types that are equal to this one"""
    if isinstance(o, (bool, int, float)):
        r = [o]
        for t in (int, float, bool):
            try:
                x = t(o)
            except (ValueError, OverflowError):
                continue
            if x == o:
                r.append(x)
        if o == 0:
            r += [0.0, -0.0]
        return r
    if isinstance(o, (tuple, frozenset)) and len(o) <= 4:
        return [type(o)(i) for i in itertools.product(*map(variants, o))] if type(o) in (tuple, frozenset) else [o]
    return [o]


def eq_key(node, raw, out, cfg):
    """
    Raw could have become something equal to out, which was already in the set
    """
    if node.contains(UnionN, ObjN, EnumN, AnyN, LiteralN):
        return True
    if isinstance(out, (tuple, frozenset)) and (len(out) > 3 or any(isinstance(i, (tuple, frozenset)) for i in out)):
        return True     # too many variants
    return any(node.match(raw, i, cfg, True) is None for i in variants(out))


def unhashable(x):
    try:
        hash(x)
        return False
    except TypeError:
        return True


class Collision(Exception):
    pass


def tuplify(x):
    if isinstance(x, Lazy):
        x = x.items
    return tuple(map(tuplify, x)) if isinstance(x, (list, tuple)) else x


IDENT = re.compile('^[A-Za-z_][A-Za-z0-9_]*$')


def dress_map(src, r, st):
    if not st.maps or src.bool(60):
        return r
    k = src.choice(('ns', 'od', 'proxy', 'userdict'))
    if k == 'ns':
        if st.cfg.dictequivalence and all(type(i) is str for i in r):
            return argparse.Namespace(**r)
        return r
    if k == 'od':
        return collections.OrderedDict(r)
    if k == 'proxy':
        return types.MappingProxyType(r)
    return collections.UserDict(r)


class UnionN(Node):
    has_union = True

    def __init__(self, prog, members, spelling=0):
        flat = []
        for m in members:
            for i in (m.members if isinstance(m, UnionN) else [m]):
                if not any(i.typ == j.typ for j in flat):
                    flat.append(i)
        self.members = flat
        self.children = tuple(flat)
        assert len(flat) > 1
        refs = any(isinstance(i, (RefN, AnyN)) for i in flat)
        opt = [i for i in flat if not (i.basic and i.typ is type(None))]
        if spelling == 1 and not refs:
            self.expr = '(%s)' % ' | '.join(i.expr for i in flat)
        elif spelling == 2 and len(opt) == 1 and len(flat) == 2:
            self.expr = 'Optional[%s]' % opt[0].expr
        else:
            self.expr = 'Union[%s]' % ', '.join(i.expr for i in flat)
        try:
            self.typ = prog.eval(self.expr)
        except TypeError:
            self.expr = 'Union[%s]' % ', '.join(i.expr for i in flat)
            self.typ = prog.eval(self.expr)
        self.hashable = all(i.hashable for i in flat)
        self.keyable = all(i.keyable for i in flat)
        self.dumpkey = all(i.dumpkey for i in flat)

    def value(self, src):
        return src.choice(self.members).value(src)

    def raw(self, src, v, st):
        m = [i for i in self.members if i.conforms(v) is None]
        exact = [i for i in m if i.basic and type(v) is i.typ]
        return (exact or m)[0].raw(src, v, st)

    def exact(self, raw):
        return any(i.basic and type(raw) is i.typ for i in self.members)

    def split(self, raw, cfg):
        """[(member, verdict)] for non basic, and for basic members"""
        return ([(m, m.verdict(raw, cfg)) for m in self.members if not m.basic],
                [(m, m.verdict(raw, cfg)) for m in self.members if m.basic])

    def verdict(self, raw, cfg, loose=False):
        if self.exact(raw):
            return OK
        if single_pass(raw):
            return ANY
        a, b = self.split(raw, cfg)
        vs = [v for _, v in a + b]
        if cfg.uniondebugconflict:
            if ANY in vs:
                return BAD if vs.count(OK) > 1 else ANY
            return OK if vs.count(OK) == 1 else BAD
        if OK in vs:
            return OK
        return ANY if ANY in vs else BAD

    def candidates(self, raw, cfg):
        """Members that are allowed to provide the result"""
        a, b = self.split(raw, cfg)
        if any(v == OK for _, v in a):
            return [m for m, v in a if v != BAD]
        return [m for m, v in a + b if v != BAD]

    def match(self, raw, out, cfg, loose=False):
        if self.exact(raw):
            return None if same(raw, out) else 'basic value %s changed into %s' % (lit(raw), lit(out))
        if single_pass(raw):
            return self.conforms(out)
        c = self.candidates(raw, cfg)
        rs = [m.match(raw, out, cfg) for m in c]
        if any(r is None for r in rs):
            return None
        return '%s can not be the result of %s as any of %s: %s' % (lit(out), lit(raw), c, rs[:1])

    def conforms(self, out):
        rs = [m.conforms(out) for m in self.members]
        return None if any(r is None for r in rs) else '%s is not in %s' % (lit(out), self.expr)

    def dmatch(self, v, out, d):
        m = [i for i in self.members if i.conforms(v) is None]
        rs = [i.dmatch(v, out, d) for i in m]
        return None if any(r is None for r in rs) else rs[0]


NOTHING = object()


def empty_value(node):
    """A value that ends the recursion"""
    if isinstance(node, UnionN):
        for m in node.members:
            if m.basic and m.typ is type(None):
                return None
        for m in node.members:
            e = empty_value(m)
            if e is not NOTHING:
                return e
    if isinstance(node, SeqN):
        return node.py()
    if isinstance(node, DictN):
        return {}
    return NOTHING


class Field:
    def __init__(self, name, node, default=None, factory=None, names=None, init=True, notrequired=False,
                 computed=None, repr=True, kwonly=False):
        self.name = name
        self.node = node
        self.default = default      # (value,) or None
        self.factory = factory      # source of a callable, or None
        self.factory_value = None   # callable
        self.names = names or {}    # metadata
        self.init = init
        self.notrequired = notrequired
        self.computed = computed
        self.repr = repr
        self.kwonly = kwonly
        self.takes_self = False     # attrs: the default is a factory which takes self
        self.alias = None           # attrs: name of the parameter of the constructor

    @property
    def param(self):
        return self.name if self.alias is None else self.alias

    @property
    def has_default(self):
        return self.default is not None or self.factory is not None

    def default_value(self):
        return self.default[0] if self.default is not None else self.factory_value()

    def default_value_safe(self, prog):
        return self.default[0] if self.default is not None else prog.eval(self.factory)()

    def dataname(self, key):
        return self.names.get(key, self.name)


class ObjN(Node):
    """
    kind: nt, dc, at, td
    """
    keyable = False
    dumpkey = False

    def __init__(self, prog, kind, fields, name=None, **opt):
        self.prog = prog
        self.kind = kind
        self.fields = fields
        self.opt = opt
        self.name = self.expr = name or prog.fresh({'nt': 'T', 'dc': 'D', 'at': 'A', 'td': 'J'}[kind])
        self.children = tuple(f.node for f in fields)
        self.frozen = opt.get('frozen', False)
        self.total = opt.get('total', True)
        self.validate = opt.get('validate')       # name of an int field which must not be negative
        self.hashable = False
        if opt.get('sub'):
            # A class that adds nothing, not even the decorator
            self.name += '_'
            text = self.source()
            self.name = self.expr
            self.text = '%s\nclass %s(%s_): pass' % (text, self.name, self.name)
        else:
            self.text = self.source()
        prog.add(self.text)
        self.typ = prog.ns[self.name]
        for n in self.children:
            for r in n.walk():
                if isinstance(r, RefN) and r.name == self.name:
                    r.target = self
        if kind == 'nt' or self.frozen:
            self.hashable = all(f.node.hashable for f in fields) and opt.get('eq', True)
        if kind != 'td':
            self.typ.__tlv_init__ = {f.name: f.param for f in fields if f.init}
        for f in fields:
            if f.factory is not None:
                f.factory_value = prog.eval(f.factory)

    def source(self):
        k = self.kind
        opt = self.opt
        out = []
        fields = [f for f in self.fields]
        parent = opt.get('parent')
        if k == 'nt':
            if opt.get('functional') and not any(f.has_default for f in fields):
                return '%s = NamedTuple(%r, [%s])' % (self.name, self.name, ', '.join('(%r, %s)' % (f.name, f.node.expr) for f in fields))
            base = self.name if not opt.get('subclass') else self.name + 'Base'
            out.append('class %s(NamedTuple):' % base)
            for f in fields:
                out.append('    %s: %s%s' % (f.name, f.node.expr, ' = ' + lit(f.default[0]) if f.default else ''))
            if not fields:
                out.append('    pass')
            if opt.get('subclass'):
                # An annotated attribute of the class is not a field
                out.append('class %s(%s):\n%s    def method(self): return 1' % (self.name, base, '    extra_: int = 3\n' if opt['subclass'] == 'annotated' else ''))
            return '\n'.join(out)
        if k == 'td':
            anyid = all(IDENT.match(f.name) for f in fields)
            def ann(f):
                return 'NotRequired[%s]' % f.node.expr if f.notrequired and self.total else f.node.expr
            if opt.get('functional') or not anyid:
                return '%s = TypedDict(%r, {%s}, total=%r)' % (
                    self.name, self.name, ', '.join('%r: %s' % (f.name, ann(f)) for f in fields), self.total)
            split = opt.get('inherit', 0)
            if split:
                # a total=False parent has only optional fields
                partial = opt.get('partial') and all(f.notrequired for f in fields[:split])
                out.append('class %sBase(TypedDict%s):' % (self.name, ', total=False' if partial else ''))
                for f in fields[:split]:
                    out.append('    %s: %s' % (f.name, 'NotRequired[%s]' % f.node.expr if f.notrequired and not partial else f.node.expr))
                out.append('class %s(%sBase, total=%r):' % (self.name, self.name, self.total))
                fields = fields[split:]
            else:
                out.append('class %s(%s%s):' % (self.name, parent.name if parent else 'TypedDict', '' if self.total else ', total=False'))
                fields = opt['own'] if parent else fields
            for f in fields:
                out.append('    %s: %s' % (f.name, ann(f)))
            if not fields:
                out.append('    pass')
            return '\n'.join(out)
        if k == 'dc':
            args = [a + '=True' for a in ('frozen', 'slots', 'kw_only', 'order') if opt.get(a)]
            if not opt.get('eq', True):
                args.append('eq=False')
            deco = '@dataclass(%s)' % ', '.join(args) if args else '@dataclass'
            split = opt.get('inherit', 0)

            def body(fs):
                if not fs:
                    out.append('    pass')
                for f in fs:
                    a = []
                    if f.default:
                        a.append('default=' + lit(f.default[0]))
                    if f.factory:
                        a.append('default_factory=' + f.factory)
                    if f.names:
                        a.append('metadata=' + lit(f.names))
                    if not f.init:
                        a.append('init=False')
                    if f.kwonly:
                        a.append('kw_only=True')
                    if not f.repr:
                        a.append('repr=False')
                    if a == ['default=' + (lit(f.default[0]) if f.default else '')]:
                        rhs = ' = ' + lit(f.default[0])
                    elif a:
                        rhs = ' = field(%s)' % ', '.join(a)
                    else:
                        rhs = ''
                    out.append('    %s: %s%s' % (f.name, f.node.expr, rhs))
            if split:
                out += [deco, 'class %sBase:' % self.name]
                body(fields[:split])
                out += [deco, 'class %s(%sBase):' % (self.name, self.name)]
                body(fields[split:])
            else:
                out += [deco, 'class %s%s:' % (self.name, '(%s)' % parent.name if parent else '')]
                body(opt['own'] if parent else fields)
            for n, e in opt.get('classvars', ()):
                out.append('    %s: ClassVar[int]%s' % (n, e))
            post = []
            if self.validate:
                post.append('        if self.%s < 0: raise %s("negative")' % (self.validate, opt.get('error', 'ValueError')))
            for f in fields:
                if f.computed:
                    post.append('        %s' % ('object.__setattr__(self, %r, %s)' % (f.name, f.computed)))
            if post:
                out.append('    def __post_init__(self):')
                out += post
            if opt.get('property'):
                out.append('    @property\n    def prop(self): return 1')
            return '\n'.join(out)
        if k == 'at':
            args = []
            style = opt.get('style', 'define')
            if self.frozen:
                args.append('frozen=True')
            if not opt.get('eq', True):
                args.append('eq=False')
            if opt.get('kw_only'):
                args.append('kw_only=True')
            if style == 's':
                deco = '@attr.s(%s)' % ', '.join(args + ['auto_attribs=%r' % bool(opt.get('auto'))])
            else:
                deco = '@attr.%s(%s)' % ('frozen' if self.frozen and style == 'frozen' else 'define',
                                         ', '.join(a for a in args if a != 'frozen=True' or style != 'frozen'))
            split = opt.get('inherit', 0)

            def body(fs):
                if not fs:
                    out.append('    pass')
                for f in fs:
                    a = []
                    if f.takes_self and f.has_default:
                        a.append('default=attr.Factory(lambda self: %s, takes_self=True)' % (
                            lit(f.default[0]) if f.default else '(%s)()' % f.factory))
                    elif f.default:
                        a.append('default=' + lit(f.default[0]))
                    elif f.factory:
                        a.append('factory=' + f.factory)
                    if f.names:
                        a.append('metadata=' + lit(f.names))
                    if not f.init:
                        a.append('init=False')
                    if not f.repr:
                        a.append('repr=False')
                    if f.kwonly:
                        a.append('kw_only=True')
                    if f.alias is not None and f.alias != f.name.lstrip('_'):
                        a.append('alias=%r' % f.alias)
                    if style == 's' and not opt.get('auto'):
                        a.append('type=' + f.node.expr)
                        out.append('    %s = attr.ib(%s)' % (f.name, ', '.join(a)))
                    else:
                        out.append('    %s: %s = attr.ib(%s)' % (f.name, f.node.expr, ', '.join(a)))
            if split:
                out += [deco, 'class %sBase:' % self.name]
                body(fields[:split])
                out += [deco, 'class %s(%sBase):' % (self.name, self.name)]
                body(fields[split:])
            else:
                out += [deco, 'class %s%s:' % (self.name, '(%s)' % parent.name if parent else '')]
                body(opt['own'] if parent else fields)
            post = []
            if self.validate:
                post.append('        if self.%s < 0: raise %s("negative")' % (self.validate, opt.get('error', 'ValueError')))
            for f in fields:
                if f.computed:
                    post.append('        %s' % ('object.__setattr__(self, %r, %s)' % (f.name, f.computed)))
            if post:
                out.append('    def __attrs_post_init__(self):')
                out += post
            return '\n'.join(out)
        raise AssertionError(k)

    def required(self, f):
        if not f.init:
            return False
        if self.kind == 'td':
            split = self.opt.get('inherit', 0)
            if f in self.fields[:split]:
                return not f.notrequired
            return self.total and not f.notrequired
        return not f.has_default

    def construct(self, kw):
        if self.kind == 'td':
            return dict(kw)
        return self.typ(**{f.param: kw[f.name] for f in self.fields if f.name in kw})

    depth = 0

    def value(self, src):
        kw = {}
        self.depth += 1
        self.prog.depth += 1
        try:
            deep = self.depth > 3 or self.prog.depth > self.prog.maxdepth
            for f in self.fields:
                if not f.init:
                    continue
                if not self.required(f) and (deep or src.bool(35)):
                    continue
                if deep and f.node.contains(RefN):
                    e = empty_value(f.node)
                    if e is not NOTHING:
                        kw[f.name] = e
                        continue
                if f.has_default and src.bool(25):
                    kw[f.name] = f.default_value()
                    continue
                v = f.node.value(src)
                if f.name == self.validate:
                    v = abs(v)
                kw[f.name] = v
        finally:
            self.depth -= 1
            self.prog.depth -= 1
        return self.construct(kw)

    def present(self, v):
        """[(field, value)] of a value"""
        if self.kind == 'td':
            return [(f, v[f.name]) for f in self.fields if f.name in v]
        return [(f, getattr(v, f.name)) for f in self.fields]

    def raw(self, src, v, st):
        r = {}
        for f, x in self.present(v):
            if not f.init and not (src.bool(30) and f.computed):
                continue
            if st.omit_defaults and self.kind != 'td' and f.has_default and src.bool(50):
                d = f.default_value()
                if same(d, x):
                    continue
            r[f.dataname(st.cfg.mangle_key) if self.kind in ('dc', 'at') else f.name] = \
                f.node.raw(src, x, st) if f.init else x
        if src.bool(30):
            r = {k: r[k] for k in src.shuffle(list(r))}
        if st.extra and src.bool(20):
            k = src.choice(('extra', 'zzz', 'Extra.x', ''))
            if k not in self.known(st.cfg) and not st.cfg.failonextra:
                r[k] = json_like(src, 1)
        return dress_map(src, r, st)

    def known(self, cfg):
        """All the keys that are meaningful, or forbidden, in the data"""
        s = {f.name for f in self.fields}
        if self.kind in ('dc', 'at'):
            s |= {f.dataname(cfg.mangle_key) for f in self.fields}
        return s

    def fieldmap(self, cfg):
        """{key in the data: field}, set of the python names that are replaced by another"""
        if self.kind in ('nt', 'td'):
            return {f.name: f for f in self.fields}, set()
        m = {f.dataname(cfg.mangle_key): f for f in self.fields}
        hidden = {f.name for f in self.fields if f.dataname(cfg.mangle_key) != f.name} - set(m)
        return m, hidden

    def verdict(self, raw, cfg, loose=False):
        m = is_mapping(raw, cfg)
        if m is None:
            return BAD
        fm, hidden = self.fieldmap(cfg)
        vs = []
        seen = set()
        for k, v in m.items():
            try:
                f = fm.get(k)
            except TypeError:
                f = None
            if f is None:
                if cfg.failonextra:
                    return BAD
                continue
            seen.add(f.name)
            if not f.init:
                continue
            r = f.node.verdict(v, cfg)
            if r == OK and f.name == self.validate:
                n = v if isinstance(v, int) else int(v)
                if n < 0:
                    return BAD
            vs.append(r)
        for f in self.fields:
            if self.required(f) and f.name not in seen:
                return BAD
        return worst(vs)

    def match(self, raw, out, cfg, loose=False):
        m = is_mapping(raw, cfg)
        fm, hidden = self.fieldmap(cfg)
        if self.kind == 'td':
            if type(out) is not dict:
                return 'expected a dict got %s' % lit(out)
            want = {fm[k].name for k in m if k in fm}
            if set(out) != want:
                return 'expected the keys %s got %s' % (sorted(want), lit(out))
            return first(fm[k].node.match(v, out[k], cfg) for k, v in m.items() if k in fm)
        if type(out) is not self.typ:
            return 'expected a %s got %s' % (self.name, lit(out))
        seen = set()
        for k, v in m.items():
            f = fm.get(k)
            if f is None or not f.init:
                continue
            seen.add(f.name)
            r = f.node.match(v, getattr(out, f.name), cfg)
            if r:
                return 'field %s: %s' % (f.name, r)
        for f in self.fields:
            if f.name in seen or not f.init:
                continue
            if not same(f.default_value(), getattr(out, f.name)):
                return 'field %s is not in the data, but is %s instead of the default %s' % (
                    f.name, lit(getattr(out, f.name)), lit(f.default_value()))
        return None

    def conforms(self, out):
        if self.kind == 'td':
            if type(out) is not dict:
                return '%s is not a dict' % lit(out)
            names = {f.name for f in self.fields}
            if not set(out) <= names:
                return '%s has keys that are not in %s' % (lit(out), self.name)
            for f in self.fields:
                if f.name not in out:
                    if self.required(f):
                        return '%s has no key %s' % (lit(out), f.name)
                else:
                    r = f.node.conforms(out[f.name])
                    if r:
                        return r
            return None
        if type(out) is not self.typ:
            return '%s is not a %s' % (lit(out), self.name)
        for f in self.fields:
            if not hasattr(out, f.name):
                return '%s has no attribute %s' % (lit(out), f.name)
            x = getattr(out, f.name)
            r = f.node.conforms(x)
            if r and not (f.has_default and same(x, f.default_value())):
                return 'field %s: %s' % (f.name, r)
        return None

    def dumpname(self, f, d):
        return f.dataname(d.mangle_key) if self.kind in ('dc', 'at') else f.name

    def dmatch(self, v, out, d):
        if type(out) is not dict:
            return '%s dumped as %s' % (lit(v), lit(out))
        want = set()
        for f, x in self.present(v):
            if self.kind == 'at' and not f.repr:
                continue
            if d.hidedefault and self.kind != 'td' and f.has_default and x == f.default_value():
                continue
            n = self.dumpname(f, d)
            want.add(n)
            if n not in out:
                return 'field %s (%s) is not in the dump %s' % (f.name, n, lit(out))
            r = f.node.dmatch(x, out[n], d)
            if r:
                return 'field %s: %s' % (f.name, r)
        if set(out) != want:
            return 'unexpected keys %s in the dump' % (set(out) - want)
        return None
