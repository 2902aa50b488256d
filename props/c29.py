"""How a type is spelled makes no difference"""
from tlv.gen import *
from tlv.rt import *
from tlv.twin import Twin, alike, unsorted


class P(Prop):
    id = 'C29'
    quick = 40000
    thorough = 1000000
    rule = ('A random type, and a copy of it in which the type expressions are spelled differently at random: typing or built-in generics, '
            'Optional, Union, nested Union or |, NewType added or removed anywhere. The same data, valid or with faults, is loaded in both, '
            'and the values dumped. Non-trivial: something is spelled differently, and the data is not a basic value.')
    assumptions = ('bool inside containers of int is not specified, and neither is the order of the alternatives of a union.',)

    ALTS = ('int', 'str', 'float', 'bool', 'None', 'Path', 'IPv4Address', 'List[int]', 'List[str]', 'Tuple[int, ...]', 'Dict[str, int]', 'date',
            'timedelta', 'Set[float]', 'Literal["1", 1]', 'O1', 'O2')
    DATA = ('1', 1, 1.5, '1.5', True, None, 'x', '', [], [1], ['1'], ['x'], (2, '3'), {}, {'a': 1}, {'a': 'x'}, {'a': '2', 'b': 3}, '2020-01-01',
            '127.0.0.1', [2020, 1, 1], 0, '0')

    def aliases(self, src, case):
        """The same alternatives in the same order: the same one has to be picked"""
        prog = Prog()
        prog.add('@dataclass\nclass O1:\n    a: int\n\nclass O2(NamedTuple):\n    a: str\n    b: int = 0')
        alts = src.sample(self.ALTS, src.int(2, 4))
        plain = 'Union[%s]' % ', '.join(alts)
        kw = gen_cfg(src).kwargs()

        def spell(alts):
            k = src.draw(5)
            if k == 0 or len(alts) < 2:
                return 'Union[%s]' % ', '.join(alts)
            if k == 1:
                return ' | '.join(alts) if any(a not in ('None',) for a in alts[:1]) else 'Union[%s]' % ', '.join(alts)
            n = src.int(1, len(alts) - 1)
            if k == 2:
                return 'Union[%s, %s]' % (spell(alts[:n]), spell(alts[n:]))
            if k == 3 and alts[-1] == 'None':
                return 'Optional[%s]' % spell(alts[:-1])
            return 'Union[%s, %s]' % (', '.join(alts[:n]), spell(alts[n:]))
        other = spell(alts)
        for _ in range(src.int(0, 2)):
            n = prog.fresh('N')
            prog.add('%s = NewType(%r, %s)' % (n, n, other))
            other = n
        place = src.choice(('%s', '%s', 'List[%s]', 'Dict[str, %s]', 'Tuple[int, %s]', 'Tuple[%s, ...]', 'field'))
        if place == 'field':
            prog.add('class F(NamedTuple):\n    f: %s\n\nclass G(NamedTuple):\n    f: %s' % (plain, other))
            ta, tb = prog.ns['F'], prog.ns['G']
        else:
            ta, tb = prog.eval(place % plain), prog.eval(place % other)
        case.say(prog.source())
        la, lb = Loader(**kw), Loader(**kw)
        for _ in range(3):
            x = src.choice(self.DATA)
            data = {'%s': lambda: x, 'List[%s]': lambda: [x], 'Dict[str, %s]': lambda: {'k': x}, 'Tuple[int, %s]': lambda: (1, x),
                    'Tuple[%s, ...]': lambda: [x, src.choice(self.DATA)], 'field': lambda: {'f': x}}[place]()
            a, b = [clean(attempt(l.load, data, t), 'load') for l, t in ((la, ta), (lb, tb))]
            text = ['load(%s, %s, **%s) -> %r' % (lit(data), t, kw, o) for t, o in ((ta, a), (tb, b))]
            case.say(*text)
            case.label('aliases')
            case.evaluated((plain, other, place, lit(data)))
            if a.ok != b.ok:
                fail('different outcomes', *text)
            if a.ok and not (same(tuple(a.value), tuple(b.value)) if place == 'field' else same(a.value, b.value)):
                fail('different values', *text)

    def check(self, src, case):
        if src.bool(12):
            return self.aliases(src, case)
        cfg = gen_cfg(src)
        p = Profile(unions=src.choice(('disjoint', 'any', 'optional')), dumpable=True, isodates=True, jsonkeys=src.bool(20),
                    any_in_union=False)
        g = Gen(src, p, cfg=cfg)
        node = g.type(top=True)
        if any(isinstance(i, RefN) and i.target is None for i in node.walk()):
            raise Discard('open reference')
        t = Twin(src, spell=True, newtypes=True)
        twin = t(node)
        case.say(g.prog.source(), '# twin', t.prog.source())
        loose = lax(node) or lax(twin)
        la, lb = make_loader(src, cfg), make_loader(src, cfg)
        for _ in range(2):
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30), maps=src.bool(15)))
            if has_lazy(raw):
                continue
            a = clean(attempt(la.load, materialise(raw), node.typ), 'load')
            b = clean(attempt(lb.load, materialise(raw), twin.typ), 'load')
            text = ['load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), a),
                    'load(%s, %s, **%s) -> %r' % (lit(raw), twin.expr, cfg.kwargs(), b)]
            case.say(*text)
            case.evaluated((g.prog.source(), t.prog.source(), node.expr, twin.expr, lit(raw))
                           if t.changed and isinstance(raw, (list, dict, tuple)) else None)
            case.label('loaded' if a.ok else 'rejected')
            if a.ok != b.ok:
                if loose and has_bool(raw):
                    continue
                fail('different outcomes', *text)
            if a.ok:
                if alike(a.value, b.value):
                    case.label('same')
                elif loose and has_bool(raw):
                    continue
                elif node.any_union() and node.verdict(raw, cfg) == OK:
                    r = examine(twin.match, raw, b.value, cfg)
                    if r:
                        fail(r, *text)
                    continue
                elif node.any_union():
                    continue
                else:
                    fail('different values', *text)
                if node.contains(AnyN) or unsorted(node) or "'nan'" in lit(a.value):
                    # The order of a set of nan depends on their address
                    continue
                hide = src.bool()
                c, d = [attempt(Dumper(isodates=True, hidedefault=hide).dump, i.value) for i in (a, b)]
                text += ['dump(%s) -> %r' % (lit(a.value), c), 'dump(%s) -> %r' % (lit(b.value), d)]
                if c.ok != d.ok or c.ok and not eq(c.value, d.value):
                    fail('different dumps', *text)
            elif not node.any_union() and not (loose and has_bool(raw)):
                if type(a.exc) is not type(b.exc):
                    fail('different exceptions', *text)
                x, y = [[i for i in examine(annots, e.exc)] for e in (a, b)]
                if [i for i, _ in x] != [i for i, _ in y] or any(not same(v, w) for (_, v), (i, w) in zip(x, y) if i != 'union'):
                    fail('different positions: %s %s' % (x, y), *text)


def lax(node):
    """Containers of int, which leave bool alone"""
    return any(isinstance(i, (SeqN, DictN)) and any(c.basic and c.typ is int for c in i.children) for i in node.walk())


def has_bool(x):
    if isinstance(x, Lazy):
        return any(map(has_bool, x.items))
    if isinstance(x, bool):
        return True
    if isinstance(x, (list, tuple)):
        return any(map(has_bool, x))
    m = is_mapping(x, Cfg())
    if m is not None:
        return any(map(has_bool, m)) or any(map(has_bool, m.values()))
    return False
