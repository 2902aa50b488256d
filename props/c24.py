"""attrs converters: the type of the parameter of the converter is the one to load"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C24'
    quick = 40000
    thorough = 1000000
    rule = ('A random attrs class in which some fields have a converter: functions with a typed parameter of a random type (and a typed '
            'result, or not), classmethods, untyped functions, lambdas, classes, builtins, partials, callable objects, converters that '
            'raise; data valid for the type of the parameter, or with faults. Non-trivial: a converter with a typed parameter of a non '
            'basic type got data.')

    def check(self, src, case):
        cfg = Cfg(failonextra=src.bool(30), basiccast=not src.bool(30))
        g = Gen(src, Profile(unions=src.choice(('any', 'optional')), recursion=False), cfg=cfg)
        fields = []      # (name, dataname, node or None if Any, default or None)
        n = src.int(1, 4)
        made = []
        lines = []
        for i in range(n):
            kind = src.weighted([(5, 'typed'), (3, 'typed_ret'), (2, 'untyped'), (2, 'ret'), (1, 'lambda'), (1, 'partial'), (1, 'object'),
                                 (1, 'method'), (1, 'static'), (1, 'optional'), (2, 'none'), (2, 'more'), (1, 'pipe'), (1, 'bound'), (1, 'text'), (2, 'made'), (1, 'second'), (1, 'class'), (1, 'raising'), (2, 'wrapped')])
            node = g.type(src.int(0, 2), top=True)
            decl = g.type(1) if src.bool(70) else None
            conv = 'conv%d' % i
            e = node.expr
            if kind == 'typed':
                g.prog.add('def %s(p: %s): return ("conv", p)' % (conv, e))
            elif kind == 'typed_ret':
                g.prog.add('def %s(p: %s) -> tuple: return ("conv", p)' % (conv, e))
            elif kind == 'untyped':
                g.prog.add('def %s(p): return ("conv", p)' % conv)
                node = None
            elif kind == 'ret':
                g.prog.add('def %s(p) -> %s: return ("conv", p)' % (conv, e))
                node = None
            elif kind == 'lambda':
                g.prog.add('%s = lambda p: ("conv", p)' % conv)
                node = None
            elif kind == 'partial':
                g.prog.add('import functools\n%s = functools.partial(lambda a, p: (a, p), "conv")' % conv)
                node = None
            elif kind == 'object':
                g.prog.add('class C%s:\n    def __call__(self, p): return ("conv", p)\n%s = C%s()' % (conv, conv, conv))
                node = None
            elif kind == 'method':
                g.prog.add('class C%s:\n    @classmethod\n    def conv(cls, p: %s): return ("conv", p)\n%s = C%s.conv' % (conv, e, conv, conv))
            elif kind == 'static':
                g.prog.add('class C%s:\n    @staticmethod\n    def conv(p: %s): return ("conv", p)\n%s = C%s.conv' % (conv, e, conv, conv))
            elif kind == 'more':
                # Only the first parameter gets the data
                g.prog.add(src.choice(('def %s(p: %s, other=None): return ("conv", p)', 'def %s(p: %s, *, other=None): return ("conv", p)',
                                       'def %s(p: %s, *others): return ("conv", p)', 'def %s(p: %s, **others): return ("conv", p)',
                                       'def %s(p: %s, other=None) -> str: return ("conv", p)', 'def %s(p: %s = None): return ("conv", p)',
                                       'def %s(p: %s = 3, other: str = "x"): return ("conv", p)', 'def %s(*p: %s): return ("conv", p[0])',
                                       'def %s(p: %s, other: int = 3): return ("conv", p)', 'def %s(p: %s, /, other: bytes = b"", *x: float) -> dict: return ("conv", p)',
                                       'def %s(p: %s, *, other: "List[int]" = ()) -> list: return ("conv", p)')) % (conv, e))
            elif kind == 'raising':
                node = LiteralN(src.sample(('a', 'b', 1, 2), src.int(1, 3)))
                g.prog.add('def %s(p):\n    if p in %r: return ("conv", p)\n    raise %s("refused")' % (
                    conv, node.values, src.choice(('KeyError', 'AssertionError', 'ValueError', 'RuntimeError', 'StopIteration', 'IndexError', 'TypeError'))))
            elif kind == 'second':
                # Only another parameter has a type
                g.prog.add(src.choice(('def %s(p, other: %s = None): return ("conv", p)', 'def %s(p, *other: %s): return ("conv", p)',
                                       'def %s(p, *, other: %s = 3) -> tuple: return ("conv", p)')) % (conv, e))
                node = None
            elif kind == 'class':
                # Its annotations are those of the attributes
                g.prog.add('class C%s(tuple):\n    other: %s\n    def __new__(cls, p): return ("conv", p)\n%s = C%s' % (conv, e, conv, conv))
                node = None
            elif kind == 'pipe':
                if node.basic and node.typ is type(None):
                    # For attrs it is as no annotation
                    node, e = BasicN(int), 'int'
                g.prog.add('def %s_(p: %s): return p\n%s = attr.converters.pipe(%s_, lambda p: ("conv", p))' % (conv, e, conv, conv))
            elif kind == 'wrapped':
                g.prog.add(src.choice(('def %s_(p: %s): return ("conv", p)\n%s = attr.Converter(%s_)',
                                       'def %s_(p: %s, s): return ("conv", p)\n%s = attr.Converter(%s_, takes_self=True)',
                                       'def %s_(p: %s, s, f: str) -> int: return ("conv", p)\n%s = attr.Converter(%s_, takes_self=True, takes_field=True)',
                                       'def %s_(p: %s, f) -> list: return ("conv", p)\n%s = attr.Converter(%s_, takes_field=True)')) % (conv, e, conv, conv))
            elif kind == 'bound':
                g.prog.add('class C%s:\n    def conv(self, p: %s): return ("conv", p)\n%s = C%s().conv' % (conv, e, conv, conv))
            elif kind == 'made':
                # They all have the same name, code and module
                g.prog.add('def maker():\n    def conv(p): return ("conv", p)\n    return conv' if 'maker' not in g.prog.ns else '')
                g.prog.add('%s = maker()\n%s.__annotations__["p"] = %s' % (conv, conv, e))
                made.append(node)
            elif kind == 'text':
                g.prog.add('def %s(p: %r): return ("conv", p)' % (conv, e))
            elif kind == 'optional':
                if node.contains(UnionN) or node.basic:
                    node = SeqN(g.prog, 'list', BasicN(int))
                    e = node.expr
                g.prog.add('def %s_(p: %s): return ("conv", p)\n%s = attr.converters.optional(%s_)' % (conv, e, conv, conv))
                node = UnionN(g.prog, [node, BasicN(type(None))], 2)
            name = 'f%d' % i
            dataname = name
            a = []
            if kind != 'none':
                a.append('converter=' + conv)
            if src.bool(20):
                dataname = 'Name.%d' % i
                a.append('metadata={"name": %r}' % dataname)
            default = None
            if src.bool(25):
                default = (src.choice((1, 'd', None) if kind != 'raising' else node.values),)
                a.append('default=%s' % lit(default[0]))
            fields.append((name, dataname, node, default, kind))
            if decl is not None or kind == 'none':
                lines.append('    %s: %s = attr.ib(%s)' % (name, e if kind == 'none' else decl.expr, ', '.join(a)))
            else:
                lines.append('    %s = attr.ib(%s)' % (name, ', '.join(a)))
        lines.sort(key=lambda i: 'default=' in i)
        deco = src.choice(('', '(frozen=True)', '(slots=True)'))
        cut = src.draw(len(lines) + 1) if src.bool(30) else 0
        if cut:
            # Some are inherited
            g.prog.add('@attr.s%s\nclass A0:\n%s' % (deco, '\n'.join(lines[:cut])))
        g.prog.add('@attr.s%s\nclass A%s:\n%s' % (deco, '(A0)' if cut else '', '\n'.join(lines[cut:]) or '    pass'))
        typ = g.prog.ns['A']
        case.say(g.prog.source())
        nested = src.bool(30)
        shared = None
        if made and src.bool(70):
            # Another class, alike but for the types
            other = g.type(src.int(0, 1), top=True)
            x = [f for f in fields if f[4] == 'made'][0]
            g.prog.add('conv_other = maker()\nconv_other.__annotations__["p"] = %s\n@attr.s\nclass B:\n    %s = attr.ib(converter=conv_other)' % (other.expr, x[0]))
            case.say(g.prog.source())
            shared = Loader(**cfg.kwargs())
            try:
                d = {x[0]: gen_raw(src, other, Style(cfg=cfg), odd=False)[0]}
            except Collision:
                raise Discard('collision')
            if has_lazy(d):
                raise Discard('lazy')
            o = clean(attempt(shared.load, d, g.prog.ns['B']), 'load(%s, B)' % lit(d))
            case.say('on the same loader: load(%s, B) -> %r' % (lit(d), o))
            v = other.verdict(d[x[0]], cfg)
            if v == OK and not o.ok or v == BAD and o.ok:
                fail('this has to be %s' % v, 'load(%s, B) -> %r' % (lit(d), o))
        for _ in range(3):
            raw = {}
            verdict = []
            typed = False
            for name, dataname, node, default, kind in fields:
                if default is not None and src.bool(40):
                    continue
                if node is None:
                    x = json_like(src, 2)
                else:
                    try:
                        x, _n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30)), faults=src.bool(25), odd=False)
                    except Collision:
                        raise Discard('collision')
                    if has_lazy(x):
                        raise Discard('lazy')
                    typed = typed or kind != 'none' and not node.basic
                    verdict.append(node.verdict(x, cfg))
                raw[dataname] = x
            want = worst(verdict)
            data, t = (raw, typ) if not nested else ([raw], g.prog.eval('List[A]'))
            o = clean(do_load(src, cfg, data, t) if shared is None else attempt(shared.load, data, t), 'load(%s, %s)' % (lit(data), t))
            text = 'load(%s, %s, **%s) -> %r' % (lit(data), t, cfg.kwargs(), o)
            case.say(text)
            case.label('loaded' if o.ok else 'rejected', *{'converter ' + i[4] for i in fields})
            case.evaluated((g.prog.source(), lit(raw)) if typed else None)
            if want == OK and not o.ok or want == BAD and o.ok:
                fail('this has to be %s' % want, text)
            if not o.ok:
                bad = [f for f in fields if f[1] in raw and f[2] is not None and f[2].verdict(raw[f[1]], cfg) == BAD]
                if len(bad) == 1 and want == BAD and len([v for v in verdict if v != OK]) == 1:
                    a = annots(o.exc)
                    # The converter is called by the constructor, not while loading the field
                    if a[nested:nested + 1] != ([('field', bad[0][0])] if bad[0][4] != 'raising' else []):
                        fail('wrong position of the error: %s' % a, text)
                continue
            v = o.value[0] if nested else o.value
            if type(v) is not typ:
                fail('not an A', text)
            for name, dataname, node, default, kind in fields:
                x = getattr(v, name)
                if kind != 'none':
                    given = raw[dataname] if dataname in raw else default[0]
                    if kind == 'optional' and given is None:
                        if x is not None:
                            fail('field %s' % name, text)
                        continue
                    if type(x) is not tuple or len(x) != 2 or x[0] != 'conv':
                        fail('the converter of %s was not used, or used twice' % name, text)
                    x = x[1]
                if dataname not in raw:
                    if not same(x, default[0]):
                        fail('field %s is not the default' % name, text)
                elif node is None:
                    if not same(x, raw[dataname]):
                        fail('the untyped converter of %s did not get the data as it is' % name, text)
                elif node.verdict(raw[dataname], cfg) == OK:
                    r = examine(node.match, raw[dataname], x, cfg)
                    if r:
                        fail('field %s: %s' % (name, r), text)

    def regressions(self):
        import attr
        import functools
        import operator

        def ret(p) -> int:
            return int(p)

        class C:
            def __call__(self, p):
                return int(p)

        def unresolved(p: 'DoesNotExist') -> int:
            return int(p)
        for name, c in (('only-return', ret), ('partial', functools.partial(ret)), ('object', C()), ('unresolved', unresolved)):
            def run(c=c):
                @attr.s
                class A:
                    x: int = attr.ib(converter=c)
                o = attempt(typedload.load, {'x': '3'}, A)
                assert o.ok and o.value.x == 3, o
            yield regression(self, name, run)

        def boom():
            def f(p: int):
                raise ValueError('no')

            def g(p: int):
                raise TypeError('no')

            @attr.s
            class A:
                x = attr.ib(converter=f)

            @attr.s
            class B:
                x = attr.ib(converter=g)
            o = attempt(typedload.load, {'x': 1}, A)
            assert isinstance(o.exc, TypedloadValueError), o
            o = attempt(typedload.load, {'x': 1}, B)
            assert isinstance(o.exc, TypedloadTypeError), o
        yield regression(self, 'raising', boom)

        def wrapped():
            def one(p: pathlib.Path): return p
            def two(p: pathlib.Path, s): return p
            for c in (attr.Converter(one), attr.Converter(two, takes_self=True), attr.Converter(two, takes_field=True)):
                @attr.s
                class A:
                    x = attr.ib(converter=c)
                o = attempt(typedload.load, {'x': 'a'}, A)
                assert o.ok and o.value.x == pathlib.Path('a'), o
        yield regression(self, 'converter-objects', wrapped)
