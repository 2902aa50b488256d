"""basictypes: the types that are left alone"""
import dataclasses
import datetime as dt
import re
from decimal import Decimal
from fractions import Fraction
from tlv.gen import *
from tlv.rt import *


class ExtraN(BasicN):
    """A type added to the basic ones"""
    VALUES = {
        bytes: (b'', b'a', b'\xff\x00', b'1'),
        Decimal: (Decimal('0'), Decimal('1.50'), Decimal('-3'), Decimal('1E+5')),
        Fraction: (Fraction(1, 3), Fraction(0), Fraction(-7, 2)),
        complex: (0j, 1j, 1 + 2j, -1.5 + 0j),
        uuid.UUID: (uuid.UUID(int=0), uuid.UUID(int=2**127 + 5)),
        dt.date: (dt.date(2020, 1, 1), dt.date(1999, 12, 31)),
        dt.timedelta: (dt.timedelta(1), dt.timedelta(seconds=-5)),
        pathlib.PosixPath: (pathlib.PosixPath('/a'), pathlib.PosixPath('b/c')),
    }
    EXPR = {dt.date: 'datetime.date', dt.timedelta: 'datetime.timedelta'}

    def __init__(self, t):
        self.typ = t
        self.expr = self.EXPR.get(t, t.__name__)

    def value(self, src):
        return src.choice(self.VALUES[self.typ])

    def raw(self, src, v, st):
        return v


class P(Prop):
    id = 'C31'
    quick = 40000
    thorough = 1000000
    rule = ('Random types that contain bytes, Decimal, Fraction, complex, UUID, date, timedelta or paths added to the basic types of '
            'Loader and Dumper: values of exactly that type must go through as the very same object at any depth, other data is converted by '
            'the constructor of the type or refused, depending on basiccast; unions keep them as they are. Basic types taken away from the '
            'set are not supported any more. Non-trivial: a value of an added type is below the root.')

    def check(self, src, case):
        if src.bool(4):
            return self.subclasses(src, case)
        if src.bool(8):
            return self.removed(src, case)
        cfg = gen_cfg(src)
        extra = src.sample(list(ExtraN.VALUES), src.int(1, 3))

        def make(g, hashable, key):
            return ExtraN(src.choice(extra))
        p = Profile(unions=src.choice(('any', 'none', 'optional')), dumpable=True, isodates=True, custom=make, custom_often=100, recursion=src.bool(15), enum_scalars=False)
        p.weights = dict(p.weights, scalar=40, basic=15, date=0, timedelta=0, enum=2)
        g = Gen(src, p, cfg=cfg)
        node = g.type(top=True)
        if not any(isinstance(i, ExtraN) for i in node.walk()):
            n = make(g, False, False)
            node = src.choice((lambda: SeqN(g.prog, 'list', n, src.draw(2)), lambda: DictN(g.prog, BasicN(str), n),
                               lambda: UnionN(g.prog, [n, BasicN(str)]), lambda: TupleN(g.prog, [n, BasicN(int)]),
                               lambda: DictN(g.prog, n, BasicN(str))))()
        case.say(g.prog.source())
        basics = {int, str, float, bool, type(None)} | set(extra)
        kw = dict(cfg.kwargs(), basictypes=basics)
        raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30)))
        if src.bool(20):
            # A value of one of the added types anywhere
            path = src.choice(list(positions(raw)))
            raw = setat(raw, path, src.choice(ExtraN.VALUES[src.choice(extra)]))
        if has_lazy(raw):
            raise Discard('lazy')
        if bytes in extra and re.search(r'(?<![\w.-])\d{7}', lit(raw)):
            raise Discard('bytes(2**31) is that many zeros')
        if src.bool():
            l = Loader()
            for k, v in kw.items():
                setattr(l, k, v)
            if src.bool():
                l.basictypes = set(Loader().basictypes)
                for t in extra:
                    l.basictypes.add(t)
            o = attempt(l.load, materialise(raw), node.typ)
        else:
            o = attempt(typedload.load, materialise(raw), node.typ, **kw)
        text = 'load(%s, %s, basictypes=+%s, **%s) -> %r' % (lit(raw), node.expr, [t.__name__ for t in extra], cfg.kwargs(), o)
        clean(o, text)
        case.say(text)
        v = node.verdict(raw, cfg)
        case.evaluated((g.prog.source(), node.expr, lit(raw)) if not node.basic and isinstance(raw, (list, dict, tuple)) else None)
        case.label('verdict ' + v)
        if v == OK and not o.ok:
            fail('valid data is rejected', text)
        if v == BAD and o.ok:
            fail('invalid data is accepted', text)
        if o.ok:
            r = examine(node.match, raw, o.value, cfg) if v == OK else examine(node.conforms, o.value)
            if r:
                fail(r, text)
        # dump
        try:
            val = node.value(src)
        except Collision:
            return
        d = Dumper(isodates=True, basictypes=basics) if src.bool() else Dumper(isodates=True)
        d.basictypes = basics
        o = attempt(d.dump, val, node.typ) if src.bool(30) else attempt(d.dump, val)
        text = 'dump(%s) -> %r' % (lit(val), o)
        case.say(text)
        if not o.ok:
            fail('can not be dumped', text)
        r = examine(node.dmatch, val, o.value, DCfg(isodates=True))
        if r:
            fail(r, text)
        r = plain(o.value, tuple(extra) + (bytes,))  # bytes: from Pattern[bytes]
        if r:
            fail(r, text)

    def subclasses(self, src, case):
        """The types that derive from the basic ones are not basic"""
        base = src.choice((int, str, float))
        S = type('S', (base,), {})
        x = S(BasicN(base).value(src))
        T = typing
        N = T.NamedTuple('N', [('a', S)])
        a = self.attrs(S)
        spots = [(x, 'dumped'), ([x], ['dumped']), ((x, 1), ['dumped', 1]), ({'k': x}, {'k': 'dumped'}), ({x: 1}, {'dumped': 1}), (N(x), {'a': 'dumped'}),
                 ([[x]], [['dumped']]), ({'k': [x]}, {'k': ['dumped']}), (frozenset((x,)), ['dumped']), (a(x, 2), {'a': 'dumped', 'b': 2})]
        handled = src.bool()
        d = Dumper(hidedefault=False)
        l = Loader()
        if handled:
            at = src.choice((0, len(d.handlers)))
            d.handlers.insert(at, (lambda v: type(v) is S, lambda d, v, t: 'dumped'))
            l.handlers.insert(src.choice((0, len(l.handlers))), (lambda t: t is S, lambda l, v, t: S(v)))
        for v, want in src.sample(spots, 3):
            o = attempt(d.dump, v)
            text = 'dump(%r), of a class that derives from %s, %s -> %r' % (v, base.__name__, 'with an handler' if handled else 'without handlers', o)
            case.say(text)
            case.label('subclass')
            case.evaluated((repr(v), handled))
            if o.ok != handled or o.ok and not same(o.value, want):
                fail('expected %s' % (want if handled else 'a refusal'), text)
        y = BasicN(base).value(src)
        for typ, data, want in ((S, y, S(y)), (T.List[S], [y], [S(y)]), (T.Dict[str, S], {'k': y}, {'k': S(y)}), (T.Optional[S], y, S(y)), (T.Tuple[S, int], [y, 1], (S(y), 1)),
                                (T.Union[S, T.Dict[str, int]], y, S(y)), (N, {'a': y}, N(S(y)))):
            o = attempt(l.load, data, typ)
            text = 'load(%s, %s), with a class that derives from %s, %s -> %r' % (lit(data), typ, base.__name__, 'with an handler' if handled else 'without handlers', o)
            if o.ok != handled or o.ok and repr(o.value) != repr(want):
                fail('expected %s' % (want if handled else 'a refusal'), text)
            if o.ok and type(next(iter(o.value.values() if isinstance(o.value, dict) else o.value)) if isinstance(o.value, (list, tuple, dict)) else o.value) is not S:
                fail('expected an instance of S', text)

    def noneless(self, src, case):
        """None is not a basic type, it has its own handler"""
        none = type(None)
        l = Loader()
        l.basictypes = l.basictypes - {none}
        l.handlers.insert(0, (lambda t: t is none, lambda l, v, t: 'nothing' if v is None else l.load(v, typing.Literal['nothing'])))
        T = typing
        n = T.NamedTuple('X', [('a', T.Optional[int])])
        spots = [(none, None, 'nothing'), (T.Optional[int], None, 'nothing'), (T.Optional[int], 3, 3), (T.List[T.Optional[str]], [None, 'a'], ['nothing', 'a']),
                 (T.List[None], [None], ['nothing']), (T.Dict[str, T.Optional[int]], {'a': None}, {'a': 'nothing'}), (T.Dict[str, None], {'a': None}, {'a': 'nothing'}),
                 (T.Tuple[T.Optional[int], None], [None, None], ('nothing', 'nothing')), (n, {'a': None}, n('nothing')),
                 (T.Union[T.List[int], None], None, 'nothing'), (T.Union[None, T.Dict[str, int]], None, 'nothing'), (int | None, None, 'nothing'),
                 (T.Set[T.Optional[int]], [None, 1], {'nothing', 1}), (T.NewType('N', T.Optional[int]), None, 'nothing')]
        for typ, data, want in src.sample(spots, 3):
            o = attempt(l.load, data, typ)
            text = 'load(%s, %s) with an handler for None, which is not basic -> %r' % (lit(data), typ, o)
            case.say(text)
            case.label('without None')
            if not o.ok or not same(o.value, want):
                fail('expected %r' % (want,), text)

    def removed(self, src, case):
        gone = src.choice((int, str, float, bool))
        kw = {'basictypes': {int, str, float, bool, type(None)} - {gone}, 'basiccast': src.bool()}
        x = BasicN(gone).value(src)
        n = typing.NamedTuple('X', [('a', gone)])
        for typ, data in ((gone, x), (typing.List[gone], [x]), (typing.Dict[str if gone is not str else int, gone], {'1' if gone is not str else 1: x}),
                          (n, {'a': x}), (typing.Tuple[gone], [x]), (typing.NewType('N', gone), x), (typing.Optional[gone], x)):
            o = attempt(Loader(**kw).load, data, typ)
            case.say('load(%s, %s) without %s -> %r' % (lit(data), typ, gone, o))
            case.evaluated()
            case.label('removed')
            if o.ok:
                fail('%s is not a basic type any more' % gone.__name__, 'load(%s, %s) -> %r' % (lit(data), typ, o))
            clean(o, 'load')
        self.noneless(src, case)
        # Its own handler takes the place
        class H:
            def __init__(self, v):
                self.v = v

            def __eq__(self, o):
                return type(o) is H and same(self.v, o.v)

            def __hash__(self):
                return hash(self.v)

            def __repr__(self):
                return 'H(%r)' % (self.v,)
        other = src.choice([t for t in (int, str, float, bool) if t is not gone])
        y = BasicN(other).value(src)
        a = self.attrs(gone)
        T = typing
        N = T.NewType('N', gone)
        spots = [(gone, x, H(x)), (T.List[gone], [x, x], [H(x), H(x)]), (T.Tuple[gone, other], [x, y], (H(x), y)), (T.Tuple[other, gone], [y, x], (y, H(x))),
                 (T.Tuple[gone, ...], [x, x], (H(x), H(x))), (T.Set[gone], [x], {H(x)}), (T.FrozenSet[gone], [x], frozenset((H(x),))),
                 (T.Dict[other, gone], {y: x}, {y: H(x)}), (T.Dict[gone, other], {x: y}, {H(x): y}), (T.Dict[gone, gone], {x: x}, {H(x): H(x)}),
                 (n, {'a': x}, n(H(x))), (N, x, H(x)), (T.Optional[gone], x, H(x)), (T.Optional[N], x, H(x)), (T.Optional[gone], None, None),
                 (T.List[T.Tuple[gone]], [[x]], [(H(x),)]), (T.Dict[str if other is str else other, T.List[gone]], {y: [x]}, {y: [H(x)]}),
                 (T.List[T.Optional[gone]], [x, None], [H(x), None]), (a, {'a': x, 'b': y}, a(H(x), y)),
                 (T.Union[gone, other], x, H(x)), (T.Union[other, gone], y, y), (T.Dict[other, T.Union[other, gone]], {y: x}, {y: H(x)}),
                 (T.Tuple[T.List[gone], other, T.Optional[gone]], [[x], y, x], ([H(x)], y, H(x)))]
        l = Loader(**kw)
        l.handlers.insert(src.choice((0, len(l.handlers))), (lambda t: t == gone, lambda l, v, t: H(v)))
        for typ, data, want in src.sample(spots, src.int(2, 6)):
            o = attempt(l.load, data, typ)
            text = 'load(%s, %s) with an handler for %s, which is not basic -> %r' % (lit(data), typ, gone.__name__, o)
            case.say(text)
            case.evaluated((str(typ), lit(data)))
            case.label('replaced')
            if not o.ok or type(o.value) is not type(want) or not eq(o.value, want) and o.value != want:
                fail('expected %r' % (want,), text)
        # and to dump
        d = Dumper(basictypes=kw['basictypes'], hidedefault=False)
        d.handlers.insert(src.choice((0, len(d.handlers))), (lambda v: type(v) is gone, lambda d, v, t: 'dumped'))
        for v, want in src.sample(((x, 'dumped'), ([x, y], ['dumped', y]), ({y: x}, {y: 'dumped'}), ({x: y}, {'dumped': y}), ((x, y), ['dumped', y]),
                                   (n(x), {'a': 'dumped'}), (a(x, y), {'a': 'dumped', 'b': y}), ({y: [x]}, {y: ['dumped']})), 3):
            o = attempt(d.dump, v)
            text = 'dump(%s) with an handler for %s, which is not basic -> %r' % (lit(v), gone.__name__, o)
            case.say(text)
            if not o.ok or not same(o.value, want):
                fail('expected %r' % (want,), text)

    def attrs(self, t):
        @dataclasses.dataclass
        class A:
            a: t
            b: typing.Any
        return A
