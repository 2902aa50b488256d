"""Fields that are added later, with a default, do not disturb"""
from tlv.gen import *
from tlv.rt import *
from tlv.twin import Twin, alike_unordered

ALIEN = 'zz_alien'
NEW = ('zz_new', 'zz-new', 'zz_1', 'zz_2', 'zz_3', 'zz_4', 'zz_5', 'zz_6')


class Evolved(Twin):
    """A copy of a schema, in which some classes have one more field"""
    def cls(self, n):
        if not isinstance(n, ObjN) or self.src.bool(25):
            return super().cls(n)
        old = n.fields
        n.fields = old + [self.new(n, i) for i in NEW[:1] + NEW[2:2 + (self.src.int(1, 6) if self.src.bool(25) else 0)] + (ALIEN,) * self.src.bool(15)]
        self.changed += 1
        try:
            return super().cls(n)
        finally:
            n.fields = old

    def new(self, n, name):
        if name == ALIEN:
            # The type of this one is not supported, and it is never in the data
            x = BasicN(int)
            self.prog.add('class Alien_:\n    pass')
            x.expr = self.src.choice(('Callable', 'object', 'Alien_', '"Unknown_"', 'Optional[Callable]', 'List["Unknown_"]', 'complex', 'TypeVar("V_")', 'Dict[str, Alien_]'))
            x.value = lambda src: None
            f = Field(name, x, notrequired=n.kind == 'td')
            if n.kind != 'td':
                f.default = (None,)
            return f
        f = Field(name, BasicN(int) if self.src.bool() else UnionN(self.prog, [BasicN(int), BasicN(type(None))], 2), notrequired=n.kind == 'td')
        if n.kind != 'td':
            f.default = (self.src.choice((0, 7)),)
            if n.kind in ('dc', 'at') and name == NEW[0] and self.src.bool(25):
                f.names = {'name': NEW[1], 'alt': NEW[1]}
        return f


def inject(src, x, keys, done):
    """The same data, with more keys in the dictionaries"""
    if type(x) is dict and x:
        r = {k: inject(src, v, keys, done) for k, v in x.items()}
        for k in keys:
            if src.bool(40):
                done.append(k)
                if src.bool():
                    r[k] = src.int(0, 9)
                else:
                    r = {k: src.int(0, 9), **r}
        return r
    if type(x) in (list, tuple):
        return type(x)(inject(src, i, keys, done) for i in x)
    return x


def strip(x):
    """A dump, without the new fields"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not (isinstance(k, str) and k in NEW + (ALIEN,))}
    return [strip(i) for i in x] if isinstance(x, list) else x


def textual(x):
    """It has text made from a dictionary"""
    return any(c in lit(x) for c in ("{'", '{"', '"{', "'{", '"[', "'["))


class P(Prop):
    id = 'C39'
    quick = 40000
    thorough = 1000000
    rule = ('A random type, and a copy of it in which some classes got one or more fields at the end: an int, or an optional one, with a default (in TypedDict '
            'not required), sometimes with another name in the data. The same data, valid or with faults, is loaded in both. It '
            'is the data of the older version, or also (without failonextra) one in which any dictionary can have the new keys. Both load it '
            'or both refuse it, in the same way; the values are the same in all the older fields, and so are the dumps; the '
            'newer fields have what is in the data, or the default. Without unions, Dict and dates (which are loaded from any iterable), the older type does not see at all the keys that it '
            'does not know. Non-trivial: some class has a new field, and the data is not a basic value.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(10)
        p = Profile(unions=src.choice(('disjoint', 'any', 'optional')), dumpable=True, isodates=True)
        g = Gen(src, p, cfg=cfg)
        if p.unions == 'any' and src.bool(20):
            node = g.union([g.obj(1, kind=src.choice(('dc', 'dc', 'at', 'nt', 'td'))) for _ in range(src.int(2, 3))])
        else:
            node = g.type(top=True) if src.bool(40) else g.obj(src.int(1, 3))
        if any(isinstance(i, RefN) and i.target is None for i in node.walk()):
            raise Discard('open reference')
        t = Evolved(src)
        twin = t(node)
        case.say(g.prog.source(), '# later', t.prog.source())
        la, lb = make_loader(src, cfg), make_loader(src, cfg)
        for _ in range(2):
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30), extra=src.bool(20) and not cfg.failonextra))
            if has_lazy(raw):
                continue
            done = []
            plainraw = raw
            if not cfg.failonextra and src.bool(70):
                raw = inject(src, raw, NEW, done)
            a = clean(attempt(la.load, materialise(raw), node.typ), 'load')
            b = clean(attempt(lb.load, materialise(raw), twin.typ), 'load')
            text = ['load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), a),
                    'load(%s, later %s, **%s) -> %r' % (lit(raw), twin.expr, cfg.kwargs(), b)]
            case.say(*text)
            case.evaluated((g.prog.source(), t.prog.source(), lit(raw)) if t.changed and isinstance(raw, (list, dict, tuple)) else None)
            case.label('loaded' if a.ok else 'rejected', 'new keys' if done else 'old data')
            if a.ok != b.ok:
                fail('the new field changes the outcome', *text)
            if done and not any(isinstance(i, (UnionN, DictN, AnyN, DateN)) for i in node.walk()):
                c = attempt(la.load, materialise(plainraw), node.typ)
                case.label('unknown keys')
                if c.ok != a.ok or c.ok and not same(a.value, c.value) and not textual(a.value) or \
                        not c.ok and type(c.exc) is not type(a.exc):
                    fail('unknown keys make a difference', text[0], 'load(%s, %s) -> %r' % (lit(plainraw), node.expr, c))
            if not a.ok:
                x, y = [examine(annots, e.exc) for e in (a, b)]
                if type(a.exc) is not type(b.exc):
                    fail('different exceptions', *text)
                if [i for i, _ in x] != [i for i, _ in y] or any(not same(v, w) for (i, v), (_, w) in zip(x, y) if i in ('field', 'index')):
                    fail('different positions: %s %s' % (x, y), *text)
                continue
            if examine(alike_unordered, a.value, b.value, NEW + (ALIEN,)) is not True:
                fail('the older fields are not the same', *text)
            if twin.verdict(raw, cfg) == OK:
                r = examine(twin.match, raw, b.value, cfg)
                if r:
                    fail(r, *text)
            if node.contains(AnyN) or any(isinstance(i, SeqN) and i.kind in ('set', 'frozenset') for i in node.walk()):
                continue
            # A field that contains a newer field, not hidden because of it
            d = DCfg(hidedefault=src.bool() and not done, isodates=True)
            c, e = do_dump(src, d, a.value), do_dump(src, d, b.value)
            text += ['dump(%s, **%s) -> %r' % (lit(a.value), d.kwargs(), c), 'dump(%s, **%s) -> %r' % (lit(b.value), d.kwargs(), e)]
            if c.ok != e.ok or c.ok and examine(lambda: eq(strip(c.value), strip(e.value))) is not True:
                fail('the dumps differ in the older fields', *text)
            if c.ok and d.hidedefault and not eq(c.value, e.value):
                fail('the new field, which has its default, is in the dump', *text)
