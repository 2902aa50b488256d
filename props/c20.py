"""Custom handlers: precedence, and the same at any depth"""
import functools
import re as re_
from tlv.gen import *
from tlv.rt import *
from props.c07 import places, getat2, setat2, fix_values

RX = re_.compile(r'^h:(-?\d+)$')


class HandledN(Node):
    """A class whose data is 'h:<number>', thanks to a handler"""
    keyable = dumpkey = True

    def __init__(self, prog, kind):
        self.kind = kind
        self.name = self.expr = prog.fresh('H')
        n = self.name
        if kind == 'plain':
            prog.add('class %s:\n    def __init__(self, n): self.n = n\n    def __eq__(self, o): return type(o) is type(self) and o.n == self.n\n'
                     '    def __hash__(self): return hash(self.n)\n    def __repr__(self): return "%s(%%d)" %% self.n' % (n, n))
        elif kind == 'dataclass':
            prog.add('@dataclass(frozen=True)\nclass %s:\n    n: int' % n)
        elif kind == 'namedtuple':
            prog.add('class %s(NamedTuple):\n    n: int' % n)
        elif kind == 'attrs':
            prog.add('@attr.frozen\nclass %s:\n    n: int' % n)
        elif kind == 'str':
            prog.add('class %s(str):\n    def __new__(cls, n): return str.__new__(cls, n)\n    @property\n    def n(self): return int(str(self))\n    def __repr__(self): return "%s(%%s)" %% str(self)' % (n, n))
        elif kind == 'enum':
            prog.add('class %s(Enum):\n' % n + ''.join('    m%d = %d\n' % (i, i) for i in range(8)) + '    @property\n    def n(self): return self.value')
        self.typ = prog.ns[n]

    def value(self, src):
        return self.typ(src.int(0, 7))

    def raw(self, src, v, st):
        return 'h:%d' % v.n

    def parse(self, raw):
        m = RX.match(raw) if type(raw) is str else None
        return int(m.group(1)) if m else None

    def verdict(self, raw, cfg, loose=False):
        n = self.parse(raw)
        if n is None or self.kind == 'enum' and not 0 <= n < 8:
            return BAD
        return OK

    def match(self, raw, out, cfg, loose=False):
        return None if same(out, self.typ(self.parse(raw))) else 'expected %s(%s) got %s' % (self.name, self.parse(raw), lit(out))

    def conforms(self, out):
        return None if type(out) is self.typ else '%s is not a %s' % (lit(out), self.name)

    def dmatch(self, v, out, d):
        return None if same(out, 'h:%d' % v.n) else '%s dumped as %s' % (lit(v), lit(out))


class P(Prop):
    id = 'C20'
    quick = 40000
    thorough = 1000000
    rule = ('Random types that contain classes which can be loaded and dumped only with a handler: unsupported classes with the handler '
            'appended, and dataclasses, NamedTuple, attrs, enums and subclasses of str with the handler inserted before the default ones. '
            'Other handlers for the same types after them (never to be used), handlers that match everything at the end, conditions that '
            'raise; dump handlers with many signatures, which get the annotated type; handlers for one parametrised type, in a history of loads of others. Specification as oracle, the position of the errors included. Non-trivial: a handler was called below the root.')

    def basic(self, src, case):
        """Handlers for a basic type"""
        p = Profile(unions='none', recursion=False, computed=False, validate=False, defaults=False, dumpable=True, isodates=True, mangling=False)
        p.only(basic=40, seq=20, tuple=10, dict=15, obj=20, newtype=6)
        p.objs = dict(nt=3, dc=4, at=3)       # the keys of a TypedDict are data, the names of the fields are not
        p.basics = (str, str, int, float, bool)
        T = src.choice((str, str, int, float, bool))
        g = Gen(src, p)
        node = g.type(top=True)
        case.say(g.prog.source())
        l = Loader()
        l.handlers.insert(l.index(str), (lambda t: t == str, lambda l, v, t: 'custom%d' % v if type(v) is int else 'tilde' + v[1:] if type(v) is str and v[:1] == '~' else v))
        d = Dumper(isodates=True)
        d.handlers.insert(0, (lambda v: type(v) is T, lambda d, v, t: 'dumped %s' % v))
        try:
            v = node.value(src)
            raw = node.raw(src, v, Style())
        except Collision:
            raise Discard('collision')

        def go(n, x, inside=False):
            # (data with numbers in place of some strings, what they become)
            if isinstance(n, NewTypeN):
                return go(n.inner, x)
            if n.basic:
                if n.typ is str and src.bool(40):
                    i = src.int(0, 5)
                    if not inside and src.bool(30):
                        # Containers do not use the handlers on the values that are already of a basic type
                        return '~%d' % i, 'tilde%d' % i
                    return i, 'custom%d' % i
                return x, x
            if isinstance(n, SeqN):
                ps = [go(n.inner, i, True) for i in x]
                return [i for i, _ in ps], n.py(o for _, o in ps)
            if isinstance(n, TupleN):
                ps = [go(m, i, True) for m, i in zip(n.inners, x)]
                return [i for i, _ in ps], tuple(o for _, o in ps)
            if isinstance(n, DictN):
                a, b = {}, {}
                for k, i in x.items():
                    i, o = go(n.val, i, True)
                    if isinstance(n.key, BasicN) and n.key.typ is str and src.bool(40):
                        j = len(a)
                        a[j], b['custom%d' % j] = i, o
                    else:
                        a[k], b[n.key.typ(k) if n.key.basic else tuple(k) if isinstance(k, (list, tuple)) else k] = i, o
                return a, b
            a, b = {}, {}
            for f in n.fields:
                if f.name in x:
                    a[f.name], b[f.name] = go(f.node, x[f.name])
            return a, n.construct(b)
        if any(isinstance(n, DictN) and not n.key.basic for n in node.walk()):
            raise Discard('keys')
        data, want = go(node, raw)
        o = clean(attempt(l.load, materialise(data), node.typ), 'load')
        case.say('load(%s, %s) -> %r' % (lit(data), node.expr, o))
        case.label('basic type')
        case.evaluated((g.prog.source(), node.expr, lit(data)) if not same(raw, data) else None)
        if not o.ok or not eq(o.value, want):
            fail('the handler for str was not used: expected %s' % lit(want), 'load(%s, %s) -> %r' % (lit(data), node.expr, o))
        a = attempt(Dumper(isodates=True, hidedefault=False).dump, v)
        d.hidedefault = False
        b = attempt(d.dump, v, node.typ) if src.bool() else attempt(d.dump, v)

        def mark(n, x, y):
            if isinstance(n, NewTypeN):
                return mark(n.inner, x, y)
            if n.basic:
                return 'dumped %s' % y if type(y) is T else y
            if isinstance(n, SeqN):
                return [mark(n.inner, None, i) for i in y]
            if isinstance(n, TupleN):
                return [mark(m, None, i) for m, i in zip(n.inners, y)]
            if isinstance(n, DictN):
                return {mark(n.key, None, k): mark(n.val, None, i) for k, i in y.items()}
            fm = {f.name: f for f in n.fields}
            return {k: mark(fm[k].node, None, i) for k, i in y.items()}
        if not a.ok or not b.ok:
            fail('can not be dumped', repr(a), repr(b))
        if not eq(mark(node, v, a.value), b.value):
            fail('the handler for %s was not used everywhere' % T.__name__, 'dump(%s) -> %r' % (lit(v), b), 'without the handler: %r' % a)

    def exact(self, src, case):
        """Handlers for just one of the parametrised types, in a history of loads"""
        cfg = Cfg(basiccast=not src.bool(30))
        p = Profile(unions=src.choice(('optional', 'any')), recursion=False, validate=False, computed=False)
        p.weights = dict(p.weights, seq=25, tuple=12, dict=16, union=12, any=0, literal=6)
        g = Gen(src, p, cfg=cfg)
        nodes = [g.type(top=True) for _ in range(src.int(1, 3))]
        parts = [i for n in nodes for i in n.walk() if isinstance(i, (SeqN, TupleN, DictN, UnionN, LiteralN, PatternN))]
        if not parts:
            nodes = parts = [SeqN(g.prog, src.choice(('list', 'set', 'frozenset', 'tuple')), BasicN(t), 0) for t in (int, str, float)]
        one = src.choice(parts)
        case.say(g.prog.source())
        # More types with the same origin
        for t in src.sample((BasicN(int), BasicN(str), BasicN(float), BasicN(bool)), 2):
            if isinstance(one, SeqN):
                nodes.append(SeqN(g.prog, one.kind, t, one.spelling))
            elif isinstance(one, TupleN):
                nodes.append(TupleN(g.prog, [t] * len(one.inners)))
            elif isinstance(one, DictN):
                nodes.append(DictN(g.prog, BasicN(str), t))
            elif isinstance(one, UnionN):
                nodes.append(UnionN(g.prog, [t, BasicN(type(None))]))
        nodes += [one, one] + src.sample(parts, min(2, len(parts)))
        if any(n.typ == one.typ and n.expr != one.expr for n in parts):
            raise Discard('same type')

        def new():
            l = Loader(**cfg.kwargs())
            l.handlers.insert(0, (lambda t: t == one.typ, lambda l, v, t: ('handled', v)))
            return l
        l = new()
        case.label('exact')
        seen = []
        for _ in range(src.int(3, 8)):
            n = src.choice(nodes)
            try:
                raw = n.raw(src, n.value(src), Style(cfg=cfg, cast=src.bool()))
            except Collision:
                raise Discard('collision')
            o = clean(attempt(l.load, materialise(raw), n.typ), 'load(%s, %s)' % (lit(raw), n.expr))
            text = 'handler for %s, load(%s, %s) -> %r' % (one.expr, lit(raw), n.expr, o)
            case.say(text)
            case.evaluated((g.prog.source(), one.expr, n.expr, lit(raw)) if n.expr not in seen and seen else None)
            seen.append(n.expr)
            if n.typ == one.typ:
                if not o.ok or type(o.value) is not tuple or o.value[:1] != ('handled',) or not (o.value[1] is raw or same(o.value[1], raw)):
                    fail('the handler for exactly this type was not used', text)
                continue
            both(attempt(new().load, materialise(raw), n.typ), o, text, 'after other types')
            if not any(i.typ == one.typ for i in n.walk()):
                f = attempt(Loader(**cfg.kwargs()).load, materialise(raw), n.typ)
                both(f, o, text, 'without the handler')

    def check(self, src, case):
        if src.bool(15):
            return self.basic(src, case)
        if src.bool(12):
            return self.exact(src, case)
        cfg = Cfg(failonextra=src.bool(30), basiccast=not src.bool(30))
        custom = []

        def make(g, hashable, key):
            if custom and src.bool(40):
                return src.choice(custom)
            n = HandledN(g.prog, src.choice(('plain', 'plain', 'dataclass', 'namedtuple', 'attrs', 'str', 'enum')))
            custom.append(n)
            return n
        p = Profile(unions=src.choice(('optional', 'none', 'disjoint')), dumpable=True, isodates=True, custom=make, custom_often=100,
                    recursion=src.bool(20))
        p.weights = dict(p.weights, scalar=30, basic=15, any=0, enum=1, literal=1)
        g = Gen(src, p, cfg=cfg)
        node = g.type(top=True)
        if not custom:
            node = SeqN(g.prog, 'list', make(g, False, False))
        case.say(g.prog.source())
        calls = []

        def load(l, value, type_):
            calls.append(type_)
            for n in custom:
                if n.typ is type_:
                    x = n.parse(value)
                    if x is None:
                        raise src.choice((TypedloadValueError, TypedloadTypeError, TypedloadException))('bad data', value=value, type_=type_)
                    try:
                        return n.typ(x)
                    except ValueError as e:
                        raise TypedloadValueError(str(e), value=value, type_=type_)
            raise RuntimeError('the handler was called for %s' % type_)

        def wrong(l, value, type_):
            raise RuntimeError('this handler was not to be used, called for %s' % type_)

        def wrongd(d, value, t):
            raise RuntimeError('this handler was not to be used, called for %r' % (value,))

        got_types = []

        def dump3(d, value, t):
            calls.append(type(value))
            got_types.append(t)
            return d.dump('h:%d' % value.n)

        class Some:
            def method(self, d, value, t):
                return dump3(d, value, t)

            def __call__(self, d, value, t):
                return dump3(d, value, t)
        two = src.bool(15)
        dump = [dump3, lambda d, v, t=None: dump3(d, v, t), functools.partial(lambda x, d, v, t: dump3(d, v, t), 0), Some().method, Some(),
                lambda d, v, *t: dump3(d, v, *t), lambda d, v, t, *a, **k: dump3(d, v, t), lambda dumper, value, annotated_type=str: dump3(dumper, value, annotated_type),
                ][src.draw(8)] if not two else src.choice((lambda d, v: dump3(d, v, two), functools.partial(lambda x, d, v: dump3(d, v, two), 0)))
        typs = [n.typ for n in custom]
        plain_ = [n.typ for n in custom if n.kind == 'plain']
        front = [n.typ for n in custom if n.kind != 'plain']
        raising = src.weighted([(6, 0), (3, 1), (1, 2)])          # 1: ignored, 2: not ignored
        kw = cfg.kwargs()
        if raising:
            kw['raiseconditionerrors'] = raising == 2

        partial = raising == 1 and src.bool(60)

        def is_in(ts):
            if partial:
                # Raises for all the others
                return lambda t: {i: True for i in ts}[t]
            return lambda t: isinstance(t, type) and t in ts

        def is_inv(ts):
            if partial:
                return lambda v: {i: True for i in ts}[type(v)]
            return lambda v: type(v) in ts

        def error(x):
            raise KeyError('condition')
        setup = src.draw(3)
        everything = src.bool()

        def setup_l(l):
            if plain_:
                l.handlers.append((is_in(plain_), load))
                l.handlers.append((is_in(typs), wrong))
            if front:
                l.handlers.insert(0, (is_in(front), wrong))
                l.handlers.insert(0, (is_in(front), load))
            if everything:
                # Only for what is not supported otherwise
                l.handlers.append((lambda t: True, wrong))
            if raising:
                l.handlers.insert(src.choice((0, 1, 2, 5, len(l.handlers) - 1, len(l.handlers))) if raising == 1 else 0, (error, wrong))
            return l

        def setup_d(d):
            if plain_:
                d.handlers.append((is_inv(plain_), dump))
                d.handlers.append((is_inv(typs), wrongd))
            if front:
                d.handlers.insert(0, (is_inv(front), wrongd))
                d.handlers.insert(0, (is_inv(front), dump))
            if everything:
                d.handlers.append((lambda t: True, wrongd))
            if raising:
                if raising == 1:
                    d.handlers.insert(src.choice((0, 1, 3, len(d.handlers) - 1, len(d.handlers))), (error, wrongd))
                else:
                    d.handlers.insert(0, (error, wrongd))
            return d
        if setup == 0:
            l = setup_l(Loader(**kw))
            d = setup_d(Dumper(isodates=True, raiseconditionerrors=kw.get('raiseconditionerrors', True)))
        else:
            l, d = Loader(**kw), Dumper(isodates=True, raiseconditionerrors=kw.get('raiseconditionerrors', True))
            a, b = setup_l(Loader()).handlers, setup_d(Dumper()).handlers
            # Those of the default objects refer to their own parameters, which are the default ones in both cases
            if setup == 1:
                l.handlers, d.handlers = a, b
            else:
                l = Loader(handlers=a, **kw)
                d = Dumper(handlers=b, isodates=True, raiseconditionerrors=kw.get('raiseconditionerrors', True))
        try:
            v = node.value(src)
            raw = node.raw(src, v, Style(cfg=cfg))
        except Collision:
            raise Discard('collision')
        if raising == 2:
            o = attempt(l.load, materialise(raw), node.typ)
            case.say('load(%s, %s) -> %r' % (lit(raw), node.expr, o))
            case.label('raising condition')
            case.evaluated()
            if o.ok:
                fail('a condition raised an exception, but it was ignored')
            o = attempt(d.dump, v)
            if o.ok:
                fail('a condition raised an exception, but it was ignored', 'dump(%s) -> %r' % (lit(v), o))
            return
        for _ in range(2):
            o = clean(attempt(l.load, materialise(raw), node.typ), 'load(%s, %s)' % (lit(raw), node.expr))
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, kw, o)
            case.say(text)
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if calls and not isinstance(node, HandledN) else None)
            case.label(*{'handler ' + n.kind for n in custom if n.typ in calls})
            if not o.ok:
                fail('valid data is rejected', text)
            r = examine(node.match, raw, o.value, cfg)
            if r:
                fail(r, text)
        del calls[:]
        o = attempt(d.dump, v)
        text = 'dump(%s) -> %r' % (lit(v), o)
        case.say(text)
        if not o.ok:
            fail('a value can not be dumped', text)
        r = examine(node.dmatch, v, o.value, DCfg(isodates=True))
        if r:
            fail(r, text)
        o = attempt(d.dump, v, node.typ)
        r = examine(node.dmatch, v, o.value, DCfg(isodates=True)) if o.ok else 'not dumped'
        if r:
            fail('with annotated_type: ' + r, repr(o))
        # The annotation gets to the handler
        n = src.choice(custom)
        x = n.value(src)
        name = g.prog.fresh('O')
        g.prog.add('@dataclass\nclass %s:\n    f: %s' % (name, n.expr))
        for f, want in ((lambda: d.dump(x, n.typ), n.typ), (lambda: d.dump(x), typing.Any), (lambda: d.dump(g.prog.ns[name](x)), n.typ)):
            del got_types[:]
            o = attempt(f)
            if not two and (not o.ok or len(got_types) != 1 or got_types[0] is not want):
                fail('the handler to dump %s got the types %s instead of %s' % (lit(x), got_types, want), repr(o))
        if not everything and src.bool(30):
            # No handler for this
            class Unknown:
                pass
            for f, x, w in ((d.dump, Unknown(), 'dump'), (l.load, 1, 'load')):
                o = attempt(f, x) if w == 'dump' else attempt(f, x, Unknown)
                if o.ok or not isinstance(o.exc, TypedloadException) or isinstance(o.exc, RuntimeError):
                    fail('%s of something that no handler wants -> %r' % (w, o), 'raising condition: %s' % raising)
        # The position of the errors
        if node.any_union():
            return
        ps = [i for i in places(node, raw, cfg) if isinstance(i[2], HandledN)]
        if not ps:
            return
        path, ann, leaf, loose = src.choice(ps)
        bad = src.choice(('h:x', 3, None, 'zz', [1], {'n': 1}, ''))
        if bool(path) and isinstance(path[-1], tuple) and path[-1][:1] == ('key',) and ann[-1][0] == 'key':
            return
        new = setat2(raw, path, bad)
        ann = fix_values(ann, path, new)
        o = clean(attempt(l.load, materialise(new), node.typ), 'load')
        text = 'load(%s, %s) -> %r' % (lit(new), node.expr, o)
        case.say(text)
        case.label('error')
        if o.ok:
            fail('the handler refuses this data', text)
        got = annots(o.exc)
        if len(got) != len(ann) or not all(a == c and (b is e or eq(b, e)) for (a, b), (c, e) in zip(got, ann)):
            fail('wrong position for the error of an handler', 'expected %r' % (ann,), 'got      %r' % (got,), text)
        if not same(o.exc.value, bad) or o.exc.type_ is not leaf.typ or 'bad data' not in str(o.exc) and leaf.kind != 'enum':
            fail('the exception of the handler is changed', text)
