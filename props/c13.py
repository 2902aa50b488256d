"""Objects: required fields, defaults, optional fields; the constructor of the class is the reference"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C13'
    quick = 50000
    thorough = 1200000
    rule = ('A random class of any kind with fields with and without defaults, factories, Optional, NotRequired, inherited, computed and '
            'keyword only, and encodings holding a random subset of its fields. The reference is the constructor of the class, called with '
            'the same fields. Non-trivial: at least one field is missing from the data.')

    def check(self, src, case):
        cfg = Cfg(basiccast=not src.bool(20), failonextra=src.bool(30), mangle_key='alt' if src.bool(10) else 'name')
        p = Profile(unions='optional', maxfields=6, enum_none=False)
        p.weights = dict(p.weights, basic=40, obj=8, union=16, any=1)
        g = Gen(src, p, cfg=cfg)
        node = g.obj(src.int(0, 2))
        case.say(g.prog.source())
        l = make_loader(src, cfg)
        for _ in range(3):
            kw = {}
            raw = {}
            try:
                for f in node.fields:
                    if not f.init:
                        continue
                    if src.bool(35 if node.required(f) else 60) and not (node.required(f) and src.bool(75)):
                        continue
                    v = f.node.value(src)
                    if f.name == node.validate and src.bool(85):
                        v = abs(v)
                    kw[f.name] = v
                    raw[f.dataname(cfg.mangle_key) if node.kind in ('dc', 'at') else f.name] = \
                        f.node.raw(src, v, Style(cfg=cfg))
            except Collision:
                raise Discard('collision')
            if src.bool():
                raw = {k: raw[k] for k in src.shuffle(list(raw))}
            missing = [f.name for f in node.fields if f.init and f.name not in kw]
            need = [f.name for f in node.fields if node.required(f) and f.name not in kw]
            want = None
            if node.kind == 'td':
                ok = not need
                want = dict(kw)
            else:
                try:
                    want = node.construct(kw)
                    ok = True
                except Exception:
                    ok = False
            o = clean(attempt(l.load, materialise(raw), node.typ), 'load(%s, %s)' % (lit(raw), node.expr))
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
            case.say(text)
            case.label(node.kind, 'missing required' if need else 'missing optional' if missing else 'complete')
            case.evaluated((g.prog.source(), lit(raw)) if missing else None)
            if ok and not o.ok:
                fail('the constructor accepts the fields but load() refuses them', text)
            if not ok and o.ok:
                fail('the constructor refuses the fields but load() accepts them; missing %s' % need, text)
            if need and node.kind != 'at' and not (isinstance(o.exc, TypedloadValueError) and all(repr(i) in str(o.exc).split('\nPath:')[0] for i in need)):
                fail('the missing fields %s are not reported' % need, text)
            if raw and src.bool(30):
                # A value that is there has to be good also when it could be missing
                k = src.choice(list(raw))
                other = dict(raw)
                other[k] = None if src.bool(60) else junk(src, 1)
                if not has_lazy(other):
                    x = clean(attempt(l.load, materialise(other), node.typ), 'load(%s, %s)' % (lit(other), node.expr))
                    v = node.verdict(other, cfg)
                    case.label('replaced: ' + str(v))
                    if v == OK and not x.ok or v == BAD and x.ok:
                        fail('the data is %s' % v, 'load(%s, %s, **%s) -> %r' % (lit(other), node.expr, cfg.kwargs(), x))
            if not ok:
                continue
            cmp = eq if node.contains(AnyN) else same
            if not cmp(o.value, want):
                fail('the constructor gives %s' % lit(want), text)
            if node.kind == 'td' and set(o.value) != set(kw):
                fail('keys that were not in the data', text)
            # The defaults of the factories are not shared
            o2 = attempt(l.load, materialise(raw), node.typ)
            if not o2.ok or not cmp(o2.value, want):
                fail('the second load differs: %r' % o2, text)
            if node.kind in ('dc', 'at'):
                for f in node.fields:
                    if f.factory and f.name not in kw:
                        a, b = getattr(o.value, f.name), getattr(o2.value, f.name)
                        if isinstance(a, (list, dict, set)) and a is b:
                            fail('the value created by the factory of %s is shared by two objects' % f.name, text)

    def regressions(self):
        import attr
        from dataclasses import dataclass, field
        from typing import Any, ClassVar, Dict, List, NamedTuple, Optional, Tuple, Union

        class Nasty(Exception):
            def __str__(self):
                raise RuntimeError('no str')
        NASTY = Nasty()

        @dataclass
        class D:
            a: int
            c: ClassVar[int] = 3
            d: ClassVar[str]
            n: int = field(init=False)

            def __post_init__(self):
                self.n = self.a + 1

        class B(NamedTuple):
            a: int
            b: str = 'x'

        class S(B):
            def m(self):
                return 1

        class Like:
            """Compares in unusual ways"""
            def __init__(self, r):
                self.r = r

            def __eq__(self, o):
                if self.r is None:
                    raise ValueError('can not be compared')
                return self.r

            def __hash__(self):
                return 1

        def unusual():
            for r in (True, False, None):
                v = Like(r)

                @dataclass
                class D1:
                    x: Any = v

                @dataclass
                class D2:
                    x: Any = field(default_factory=lambda: v)

                class N1(NamedTuple):
                    x: Any = v

                @attr.s
                class A1:
                    x = attr.ib(type=Any, default=v)

                @attr.s
                class A2:
                    x = attr.ib(type=Any, factory=lambda: v)
                for t in (D1, D2, N1, A1, A2):
                    o = attempt(typedload.load, {}, t)
                    assert o.ok and o.value.x is v, (t, r, o)
        yield regression(self, 'unusual-comparisons', unusual)

        def raising():
            for e in (KeyError('x'), AssertionError(), StopIteration(), AttributeError('x'), RuntimeError(), ValueError(), TypeError(), NASTY):
                @dataclass
                class V:
                    x: int

                    def __post_init__(self):
                        if self.x < 0:
                            raise e

                @attr.s
                class W:
                    x = attr.ib(type=int)

                    def __attrs_post_init__(self):
                        if self.x < 0:
                            raise e

                class B(NamedTuple):
                    x: int

                class X(B):
                    def __new__(cls, x):
                        if x < 0:
                            raise e
                        return super().__new__(cls, x)
                for t in (V, W, X):
                    for d, tt in (({'x': -1}, t), ([{'x': -1}], List[t]), ({'a': {'x': -1}}, Dict[str, t]), (({'x': 1}, {'x': -1}), Tuple[t, t]),
                                  ([{'x': -1}], Optional[List[t]])):
                        o = attempt(typedload.load, d, tt)
                        assert isinstance(o.exc, TypedloadException), (t, e, o)
                        assert str(o.exc)
                    o = attempt(typedload.load, {'x': -1}, Union[t, Dict[str, int]])
                    assert o.ok and o.value == {'x': -1}, (t, e, o)
        yield regression(self, 'constructor-raising-anything', raising)

        @attr.s
        class T:
            a = attr.ib(type=int)
            b = attr.ib(type=int, default=attr.Factory(lambda self: self.a + 1, takes_self=True))

        def classvar():
            o = attempt(typedload.load, {'a': 1}, D)
            assert o.ok and o.value == D(1), o
            assert not attempt(typedload.load, {'a': 1, 'c': 3}, D, failonextra=True).ok
        yield regression(self, 'dataclass-classvar', classvar)

        def sub():
            o = attempt(typedload.load, {'a': 1}, S)
            assert o.ok and type(o.value) is S and o.value == (1, 'x'), o
            assert not attempt(typedload.load, {}, S).ok
        yield regression(self, 'namedtuple-subclass', sub)

        def takes_self():
            o = attempt(typedload.load, {'a': 1}, T)
            assert o.ok and o.value == T(1, 2), o
        yield regression(self, 'attrs-takes-self', takes_self)
