"""Errors: only typedload exceptions, that can be inspected and printed"""
from tlv.gen import *
from tlv.rt import *

UNSUPPORTED = ('object', 'bytes', 'complex', 'Callable[[int], int]', 'type', 'Iterable[int]', 'Opaque', 'range', 'TypeVar("T")',
               'bytearray', 'Exception', 'slice', 'memoryview', 'List', 'Dict', 'Tuple', 'Set', 'FrozenSet', 'list', 'dict', 'tuple',
               'typing.Annotated[int, 3]', 'typing.Deque[int]', 'typing.Sequence[int]', 'typing.Mapping[str, int]', 'typing.Type[int]',
               'typing.Hashable', 'typing.TypeAliasType("X", int)',
               'typing.OrderedDict[str, int]', 'typing.Callable', 'Enum', 'LostN', 'LostT', 'LostD', 'LostE', 'LostA', 'LostN', 'LostE')

CLASSES = '''@dataclass
class ClsD:
    a: int
@dataclass
class ClsDD:
    a: int = 1
@attr.s
class ClsA:
    a = attr.ib(type=int)
@attr.s
class ClsAA:
    a = attr.ib(type=int, default=1)
class ClsN(NamedTuple):
    a: int = 1
class ClsT(TypedDict):
    a: int
class ClsE(Enum):
    A = 1'''

LOST = '''class LostN(NamedTuple):
    a: "Nowhere"
class LostT(TypedDict):
    a: "Nowhere"
@dataclass
class LostD:
    a: "Nowhere"
class LostE(Enum):
    A: "Nowhere" = 1
@attr.s
class LostA:
    a = attr.ib(type='Nowhere')'''

PATH = 'Path: '


def inspect(e, none=False, depth=0):
    """None or what is wrong with the exception"""
    if not isinstance(e, TypedloadException):
        return 'raised %s: %s' % (type(e).__name__, str(e)[:200])
    try:
        s = str(e)
        repr(e)
    except Exception as x:
        return 'the exception can not be printed: %r' % x
    if PATH not in s:
        return 'no path in the description: %r' % s
    if not isinstance(e.trace, list) or not isinstance(e.exceptions, list):
        return 'trace and exceptions are not lists'
    for t in e.trace:
        t.value, t.type_
        if t.annotation is not None and not isinstance(t.annotation.annotation_type, AnnotationType):
            return 'wrong annotation %r' % (t.annotation,)
    if e.type_ is None and not none:
        return 'the exception does not tell the type: %s' % s
    if e.value is None and not none and e.trace and type(e.trace[-1].value) in (int, str, float, bool, list, tuple, dict):
        return 'the exception does not tell the value: %s' % s
    if depth < 6:
        for i in e.exceptions:
            r = inspect(i, none, depth + 1)
            if r:
                return r
    return None


class OpaqueN(Node):
    """A type that is not supported"""
    hashable = keyable = True

    def __init__(self, prog, expr):
        # by another name, as the fields of a class can be called type or list
        self.expr = 'Unsup%d' % UNSUPPORTED.index(expr)
        prog.add('%s = %s' % (self.expr, expr))
        self.typ = prog.eval(self.expr)

    def value(self, src):
        return 1

    def raw(self, src, v, st):
        return src.choice((1, 'a', None, [1], {}, {'a': 1}))

    def verdict(self, raw, cfg, loose=False):
        return BAD

    def match(self, *a):
        return 'unsupported'

    def conforms(self, out):
        return None


class Unprintable:
    def __repr__(self):
        raise ValueError('no repr')


class Incomparable:
    """Like the arrays of numpy"""
    __hash__ = None

    def __eq__(self, o):
        raise ValueError('The truth value is ambiguous')

    def __repr__(self):
        return 'Incomparable()'


class HashlessStr(str):
    def __str__(self):
        raise RuntimeError('no str')


class Raising:
    """Raises something from the methods that are needed to look at it"""
    NAMES = ('__repr__', '__str__', '__eq__', '__hash__', '__int__', '__float__', '__bool__', '__iter__', '__len__', '__getitem__', '__index__',
             '__contains__', '__format__', '__lt__', 'keys', 'items', 'get')
    ERRORS = (ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, ZeroDivisionError, StopIteration, OSError,
              NotImplementedError, AssertionError, UnicodeDecodeError, RecursionError)

    @staticmethod
    def make(src):
        names = src.sample(Raising.NAMES, src.int(1, 5))
        error = src.choice(Raising.ERRORS)

        def method(self, *a):
            if error is UnicodeDecodeError:
                raise error('utf8', b'', 0, 1, 'raised')
            raise error('raised')
        # lit() does not use repr() on them
        return type('Raising_%s_%s' % ('_'.join(n.strip('_') for n in names), error.__name__), (Raising,), {n: method for n in names})()


NASTY = (10 ** 5000, Unprintable(), Incomparable(), HashlessStr('a'))


class OGen(Gen):
    def g_any(self, depth, hashable, key, dumpkey=False):
        return OpaqueN(self.prog, self.src.choice(UNSUPPORTED))


class P(Prop):
    id = 'C06'
    quick = 60000
    thorough = 1500000
    rule = ('A random type, in a third of the cases with unsupported types nested in it, and data with 1-6 faults or junk (odd Python '
            'objects, generators, unhashable keys, huge numbers); dumps of values containing unsupported objects. Non-trivial: the call '
            'was rejected.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        if src.bool(15):
            cfg.uniondebugconflict = True
        unsup = src.bool(33)
        p = Profile(any_in_union=True, strconstructed=True)
        prog = Prog()
        prog.ns['Unprintable'] = Unprintable
        prog.ns['typing'] = typing
        prog.add('class Opaque:\n    def __init__(self, x=None): pass\n    def __repr__(self): return "Opaque()"')
        if unsup:
            prog.add(LOST)
            p.weights = dict(p.weights, any=12)
        g = (OGen if unsup else Gen)(src, p, prog=prog, cfg=cfg)
        node = self.node = g.type(top=True)
        # None can be used as a type
        none = any(n.basic and n.typ is type(None) for n in node.walk())
        case.say(g.prog.source())
        style = Style(cast=src.bool(), seqs=src.bool(), maps=src.bool(), cfg=cfg, extra=True)
        extra = {'pep563': True} if unsup and src.bool(25) else {}
        if g.strconstructed:
            extra['strconstructed'] = Loader().strconstructed | {n.typ for n in g.strconstructed}
        for _ in range(2):
            if src.bool(70):
                raw, n = gen_raw(src, node, style)
                if src.bool(8):
                    raw = foreign(src, raw, node)
                    n += 1
                for _ in range(src.int(1, 3)):
                    raw = corrupt(src, raw)
            else:
                raw, n = junk(src, 3), 99
            if src.bool(6):
                raw = self.nasty(src, raw)
            o = do_load(src, cfg, raw, node.typ, **extra)
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
            case.say(text)
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if not o.ok else None)
            case.label(type(o.exc).__name__ if not o.ok else 'loaded')
            if not o.ok:
                r = inspect(o.exc, none)
                if r:
                    fail(r, text)
        # Dump of something that is not supported
        prog.add(CLASSES)
        v = prog.eval(src.choice(('Opaque()', '1j', 'b"a"', 'range(3)', 'bytearray(b"a")', 'iter(())', 'Opaque', 'int', 'deque()',
                                  'Namespace(a=1)', 'UserDict()', 'MappingProxyType({})', '...', 'len', 'Unprintable()',
                                  'ClsD', 'ClsDD', 'ClsA', 'ClsAA', 'ClsN', 'ClsT', 'ClsE', 'List[int]')))
        bad = v
        for _ in range(src.draw(4)):
            k = src.draw(6)
            if k == 0:
                v = [1, v]
            elif k == 1:
                v = {'a': v, 'b': 2}
            elif k == 2:
                v = (v,)
            elif k == 3:
                prog.ns['_v'] = v
                n = prog.fresh('W')
                prog.add('@dataclass\nclass %s:\n    x: Any\n' % n)
                v = prog.ns[n](v)
            elif k == 4:
                n = prog.fresh('W')
                prog.add('class %s(NamedTuple):\n    x: Any\n' % n)
                v = prog.ns[n](v)
            else:
                n = prog.fresh('W')
                prog.add('@attr.define(eq=False)\nclass %s:\n    x: Any\n' % n)
                v = prog.ns[n](v)
        o = do_dump(src, DCfg(hidedefault=src.bool()), v)
        text = 'dump(%s) -> %r' % (lit(v), o)
        case.say(text)
        case.evaluated(text.split(' at 0x')[0])
        if o.ok:
            fail('unsupported object dumped', text)
        if not isinstance(o.exc, TypedloadValueError):
            fail('raised %s and not TypedloadValueError' % type(o.exc).__name__, text)
        r = inspect(o.exc)
        if r:
            fail(r, text)
        if o.exc.value is not bad:
            fail('the exception tells another value: %s' % lit(o.exc.value), text)

    def nasty(self, src, raw):
        """Puts an object that can not be printed, or compared, in the data"""
        path = src.choice(list(positions(raw)))
        x = getat(raw, path)
        y = src.choice(NASTY) if src.bool() else Raising.make(src)
        if isinstance(y, Raising):
            return setat(raw, path, y)
        if y is NASTY[3]:
            if type(x) is str:
                # The same string
                return setat(raw, path, HashlessStr(x))
            if type(x) is dict:
                names = [k for k in x if type(k) is str]
                names += [f.name for n in self.node.walk() for f in getattr(n, 'fields', ())]
                if names:
                    y = HashlessStr(src.choice(names))
                    x = {k: v for k, v in x.items() if k != y or src.bool()}
        if type(x) is dict and src.bool() and y is not NASTY[2]:
            return setat(raw, path, {**x, y: src.choice(list(x.values()) or [1])})
        return setat(raw, path, y)

    def regressions(self):
        import datetime as dt
        import enum
        import re
        from dataclasses import dataclass, field
        from typing import (Dict, List, Literal, NamedTuple, Optional, Pattern, Set, Tuple, TypedDict, Union)

        class A(NamedTuple):
            t: Literal['a']

        class B(NamedTuple):
            t: Literal['b']

        class E(enum.Enum):
            a: Tuple[int, int] = (1, 2)

        @dataclass
        class M:
            a: int = field(metadata={'name': 'b'})

        @dataclass
        class V:
            x: int

            def __post_init__(self):
                if self.x < 0:
                    raise ValueError('negative')

        cases = [
            ('tuple-without-len', (i for i in (1, 2)), Tuple[int, int], {}),
            ('int-into-tuple', 3, Tuple[int, int], {}),
            ('int-into-union-of-tuples', 3, Union[Tuple[int, int], List[int]], {}),
            ('unhashable-discriminator', {'t': []}, Union[A, B], {}),
            ('failonextra-int-key', {'t': 'a', 3: 3}, A, {'failonextra': True}),
            ('timedelta-overflow', 1e300, dt.timedelta, {}),
            ('timedelta-nan', float('nan'), dt.timedelta, {}),
            ('date-overflow', [10**30, 1, 1], dt.date, {}),
            ('time-overflow', [10**30], dt.time, {}),
            ('datetime-overflow', [2020, 1, 1, 10**30], dt.datetime, {}),
            ('regex-overflow', 'a{99999999999999999999}', re.Pattern, {}),
            ('regex-recursion', '(' * 5000 + ')' * 5000, re.Pattern, {}),
            ('enum', 3, E, {}),
            ('unhashable-key', {(1, 2): 3}, Dict[List[int], int], {}),
            ('unhashable-item', [[1]], Set[List[int]], {}),
            ('list-into-dict', [1], Dict[str, int], {}),
            ('constructor', {'x': -1}, V, {}),
            ('huge-number-basic', NASTY[0], str, {'basiccast': False}),
            ('huge-number-enum', NASTY[0], E, {}),
            ('huge-number-pattern', NASTY[0], Pattern[str], {}),
            ('huge-number-key', {NASTY[0]: 'x'}, Dict[int, int], {}),
            ('huge-number-extra', {NASTY[0]: 'x', 't': 'a'}, A, {'failonextra': True}),
            ('unprintable-extra', {NASTY[3]: 1, 'b': 2}, M, {'failonextra': True}),
            ('unprintable-basic', NASTY[1], str, {'basiccast': False}),
            ('unprintable-enum', NASTY[1], E, {}),
            ('unprintable-value', {'x': NASTY[1]}, Dict[str, int], {}),
            ('incomparable-literal', NASTY[2], Literal['a', 1], {}),
        ]
        for name, raw, t, kw in cases:
            def run(raw=raw, t=t, kw=kw):
                for wrap, tt in ((raw, t), ([raw], List[t]), ({'a': raw}, Dict[str, t])):
                    o = attempt(typedload.load, wrap, tt, **kw)
                    assert not o.ok, o
                    assert inspect(o.exc) is None, inspect(o.exc)
            yield regression(self, name, run)

        def unsupported_tuple():
            o = attempt(Dumper(handlers=[]).dump, (1, 2))
            assert not o.ok and inspect(o.exc) is None, o
        yield regression(self, 'dump-unsupported-tuple', unsupported_tuple)

        def unresolvable():
            prog = Prog()
            prog.add(LOST)
            for n in ('LostN', 'LostT', 'LostD', 'LostE', 'LostA'):
                for pep563 in (False, True):
                    for raw, t in (({'a': 1}, n), ([{'a': 1}], 'List[%s]' % n), ({'a': {'a': 1}}, 'Dict[str, %s]' % n),
                                   ({'a': 1}, 'Union[int, %s]' % n)):
                        o = attempt(typedload.load, raw, prog.eval(t), pep563=pep563)
                        assert not o.ok and inspect(o.exc) is None, o
        yield regression(self, 'unresolvable-annotations', unresolvable)

        def classes():
            prog = Prog()
            prog.add(CLASSES)
            for n in ('ClsD', 'ClsDD', 'ClsA', 'ClsAA', 'ClsN', 'ClsT', 'ClsE'):
                o = attempt(typedload.dump, prog.ns[n])
                assert not o.ok and inspect(o.exc) is None, o
        yield regression(self, 'dump-classes', classes)

        def unprintable():
            o = attempt(typedload.dump, NASTY[1])
            assert not o.ok and inspect(o.exc) is None, o
        yield regression(self, 'dump-unprintable', unprintable)
