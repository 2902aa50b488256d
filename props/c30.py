"""Deferred evaluation of the annotations (pep563)"""
from tlv.gen import *
from tlv.rt import *
from tlv.twin import Twin, alike, unsorted


class P(Prop):
    id = 'C30'
    quick = 30000
    thorough = 700000
    rule = ('A random family of dataclasses, NamedTuple and TypedDict, and the same classes defined in a module that has '
            '"from __future__ import annotations", where all the annotations are strings. The same data, valid or with faults, is loaded in '
            'the first with a default loader and in both with pep563 enabled; the values are dumped. Non-trivial: the type contains a class, '
            'and the data is a container.')
    assumptions = ('pep563 is documented as deprecated, and attrs classes are not supported with it.',)

    def defaults(self, src, case):
        """Defaults have nothing to do with the types"""
        kind = src.choice(('class X(NamedTuple):', '@dataclass\nclass X:'))
        fields = []
        names = 'abcd'[:src.int(1, 4)]
        for n in names:
            t = src.choice(('int', 'str', 'List[int]', 'Optional[int]', 'Dict[str, str]', 'Union[int, None]', 'float', 'bool', 'None', 'Tuple[int, ...]', 'Any', 'B',
                            'Union[int, str]', 'Literal[1, "a"]'))
            if 'dataclass' in kind and src.bool(20):
                t = 'Tuple[int, int]'
            fields.append('    %s: %s = %s' % (n, t, src.choice(('None', 'None', '1', "'x'", '()', '1.5', 'True', 'int'))))
        text = 'from typing import *\nfrom dataclasses import dataclass\nclass B(NamedTuple):\n    x: int = None\n' + kind + '\n' + '\n'.join(fields)
        if 'dataclass' in kind and src.bool(30):
            text += '\n    K: ClassVar[int] = 3'
        res = []
        data = {n: src.choice((None, 1, '1', 'a', [], [1], [None], {}, {'x': None}, {'x': 1}, True, 1.5, (1, 2))) for n in names + src.choice(('', '', 'K', 'z')) if src.bool(70)}
        cfg = gen_cfg(src)
        mods = []
        for future in (False, True):
            m = types.ModuleType('tlv_defaults_%d' % future)
            sys.modules[m.__name__] = m
            exec(compile(('from __future__ import annotations\n' if future else '') + text, m.__name__, 'exec', dont_inherit=True), m.__dict__)
            mods.append(m)
        case.say(text)
        for m, pep in ((mods[0], False), (mods[0], True), (mods[1], True)):
            res.append(clean(attempt(Loader(pep563=pep, **cfg.kwargs()).load, data, m.X), 'load'))
        text = ['load(%s, X, **%s) -> %r' % (lit(data), cfg.kwargs(), res[0]), 'with pep563: %r' % res[1], 'deferred: %r' % res[2]]
        case.say(*text)
        case.label('defaults')
        case.evaluated((lit(data), tuple(fields)))
        for r in res[1:]:
            if r.ok != res[0].ok:
                fail('different outcomes', *text)
            if r.ok:
                for n in names:
                    x, y = getattr(res[0].value, n), getattr(r.value, n)
                    if type(x).__name__ == 'B' == type(y).__name__:
                        x, y = x.x, y.x
                    if type(x) is not type(y) or not eq(x, y):
                        fail('different values of %s' % n, *text)
            elif type(r.exc) is not type(res[0].exc):
                fail('different exceptions', *text)

    def check(self, src, case):
        if src.bool(10):
            return self.defaults(src, case)
        cfg = gen_cfg(src)
        p = Profile(unions=src.choice(('disjoint', 'any', 'optional')), dumpable=True, isodates=True, nontotal=True)
        p.objs = dict(nt=3, dc=4, td=3)
        p.weights = dict(p.weights, obj=60, basic=15)
        g = Gen(src, p, cfg=cfg)
        node = g.type(top=True)
        if any(isinstance(i, RefN) and i.target is None for i in node.walk()):
            raise Discard('open reference')
        t = Twin(src, future=True, name='tlv_future')
        twin = t(node)
        q = Twin(src, name='tlv_quoted', quote=True)
        quoted = q(node)
        case.say(q.prog.source(), '# and')
        case.say(g.prog.source())
        hasobj = any(isinstance(i, ObjN) for i in node.walk())
        kw = cfg.kwargs()
        # In the future module the refs are resolved by python, in the other they need to be found first
        loaders = [(Loader(**kw), node), (Loader(pep563=True, **kw), node), (Loader(pep563=True, **kw), twin), (Loader(pep563=True, **kw), quoted)]
        for _ in range(2):
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30), maps=src.bool(15)))
            if has_lazy(raw):
                continue
            res = [clean(attempt(l.load, materialise(raw), x.typ), 'load(%s, %s, pep563=%s)' % (lit(raw), x.expr, l.pep563)) for l, x in loaders]
            text = ['load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, kw, res[0]), 'with pep563: %r' % res[1], 'deferred: %r' % res[2], 'names as strings: %r' % res[3]]
            case.say(*text)
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if hasobj and isinstance(raw, (list, dict, tuple)) else None)
            case.label('loaded' if res[0].ok else 'rejected')
            a = res[0]
            if q.changed:
                case.label('quoted')
            for b in res[1:]:
                if a.ok != b.ok:
                    fail('different outcomes', *text)
                if a.ok:
                    if not alike(a.value, b.value):
                        if node.any_union():
                            if node.verdict(raw, cfg) == OK:
                                r = examine((twin if b is res[2] else quoted if b is res[3] else node).match, raw, b.value, cfg)
                                if r:
                                    fail(r, *text)
                            continue
                        fail('different values', *text)
                    if node.contains(AnyN) or unsorted(node) or "'nan'" in lit(a.value):
                        continue
                    hide = src.bool()
                    c, d = [attempt(Dumper(isodates=True, hidedefault=hide).dump, i.value) for i in (a, b)]
                    if c.ok != d.ok or c.ok and not eq(c.value, d.value):
                        fail('different dumps', *(text + [repr(c), repr(d)]))
                elif not node.any_union() and not any(isinstance(i, EnumN) for i in node.walk()):
                    if type(a.exc) is not type(b.exc):
                        fail('different exceptions', *text)
                    x, y = [[i for i in examine(annots, e.exc) if i[0] != 'forwardref'] for e in (a, b)]
                    if [i for i, _ in x] != [i for i, _ in y] or any(not same(v, w) for (_, v), (_, w) in zip(x, y)):
                        fail('different positions: %s %s' % (x, y), *text)
