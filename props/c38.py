"""The order of the keys in the data, of the fields and of the alternatives has no meaning"""
import copy
from tlv.gen import *
from tlv.rt import *
from tlv.twin import Twin, alike_unordered


class Shuffled(Twin):
    """A copy of a schema, with the fields of the classes and the alternatives of the unions in another order"""
    def __init__(self, src, unions):
        super().__init__(src)
        self.unions = unions
        self.mixed = 0

    def order(self, items):
        r = self.src.shuffle(list(items))
        if r != items:
            self.changed += 1
        return r

    def build(self, n, member=False):
        if isinstance(n, UnionN) and self.unions:
            ms = [self(i, True) for i in n.members]
            order = self.src.shuffle(list(range(len(ms))))
            if order != sorted(order):
                self.mixed += 1
            return UnionN(self.prog, [ms[i] for i in order], 1 if '|' in n.expr else 0)
        return super().build(n, member)

    def cls(self, n):
        if not isinstance(n, ObjN) or n.kind == 'td' and n.opt.get('inherit') or any(f.takes_self or f.computed for f in n.fields):
            return super().cls(n)
        m = copy.copy(n)
        # Those with a default go after the others. What is inherited remains so: an inherited tag is not used to choose
        m.fields = []
        split = n.opt.get('inherit', 0)
        for part in (n.fields[:split], n.fields[split:]):
            for default in (False, True):
                m.fields += self.order([f for f in part if f.has_default == default])
        return super().cls(m)


def reorder(src, x):
    """The same data, with the keys of the dictionaries in another order"""
    if type(x) is dict:
        return {k: reorder(src, x[k]) for k in src.shuffle(list(x))}
    if type(x) in (list, tuple):
        return type(x)(reorder(src, i) for i in x)
    return x


def hidden(node):
    """The python names of the fields that are called in some other way in the data"""
    return sorted({f.name for i in node.walk() if isinstance(i, ObjN) for f in i.fields if f.names and i.kind in ('dc', 'at')})


def crowd(src, x, keys):
    """The same data, with more keys in the dictionaries"""
    if type(x) is dict and x:
        x = {k: crowd(src, v, keys) for k, v in x.items()}
        if not src.bool(30):
            for k in keys:
                if src.bool(70):
                    x.setdefault(k, src.int(0, 9))
    elif type(x) in (list, tuple):
        return type(x)(crowd(src, i, keys) for i in x)
    return x


def textual(x):
    """It has text made from a dictionary, which depends on the order"""
    return "{'" in lit(x) or '{"' in lit(x) or '{' in lit(x) and any(c in lit(x) for c in ('"{', "'{", "'[", '"['))


class P(Prop):
    id = 'C38'
    quick = 40000
    thorough = 1000000
    rule = ('A random type, and a copy of it in which the fields of all the classes are declared in another order (those with a default after '
            'the others) and, in some cases, the alternatives of the unions too. Data for it, valid or with faults, is loaded by the first, '
            'and with the keys of all its dictionaries in another order by the second: both load it or both refuse it, the values are '
            'the same field by field, and so are the dumps. Non-trivial: fields or keys did change their order.')
    assumptions = ('Unions: when more alternatives accept the data, which one is used might depend on their order.',
                   'str() of a dictionary, by basiccast, depends on the order of its keys.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(10)
        p = Profile(unions=src.choice(('disjoint', 'any', 'optional')), dumpable=True, isodates=True, maxfields=5, any_in_union=False)
        g = Gen(src, p, cfg=cfg)
        if p.unions == 'any' and src.bool(30):
            node = g.union(g.tagged(src.int(0, 1), p.tags_default, overlap=src.bool(70)))
        else:
            node = g.type(top=True) if src.bool(30) else g.obj(src.int(1, 3))
        if any(isinstance(i, RefN) and i.target is None for i in node.walk()):
            raise Discard('open reference')
        t = Shuffled(src, src.bool(30))
        twin = t(node)
        case.say(g.prog.source(), '# shuffled', t.prog.source())
        odd = any(isinstance(i, DictN) and not (i.key.basic and i.key.typ is str) for i in node.walk())
        la, lb = make_loader(src, cfg), make_loader(src, cfg)
        for _ in range(2):
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30), extra=src.bool(20)))
            if has_lazy(raw):
                continue
            more = src.weighted([(5, ()), (2, hidden(node)), (0 if cfg.failonextra else 1, ['k%d' % i for i in range(10)])])
            if more:
                raw = crowd(src, raw, more)
            # Different keys could become the same one, then the last is used
            other = reorder(src, raw) if not odd else raw
            moved = lit(raw) != lit(other)
            a = clean(attempt(la.load, materialise(raw), node.typ), 'load')
            b = clean(attempt(lb.load, materialise(other), twin.typ), 'load')
            text = ['load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), a),
                    'load(%s, %s, **%s) -> %r' % (lit(other), twin.expr, cfg.kwargs(), b)]
            case.say(*text)
            case.evaluated((g.prog.source(), t.prog.source(), lit(raw), lit(other)) if moved or t.changed or t.mixed else None)
            case.label('loaded' if a.ok else 'rejected', 'keys' if moved else 'same keys', 'fields' if t.changed else 'same fields')
            if moved and (textual(a.value) or textual(b.value)):
                continue
            if a.ok != b.ok:
                fail('the order changes the outcome', *text)
            if not a.ok:
                if n == 1 and not t.mixed and not moved and not node.any_union() and type(a.exc) is not type(b.exc):
                    fail('the order changes the exception', *text)
                continue
            if t.mixed and node.verdict(raw, cfg) != OK:
                continue
            if not examine(alike_unordered, a.value, b.value) is True:
                if t.mixed:
                    r = examine(twin.match, other, b.value, cfg)
                    if r:
                        fail(r, *text)
                    continue
                fail('the order changes the value', *text)
            if node.contains(AnyN) or any(isinstance(i, SeqN) and i.kind in ('set', 'frozenset') for i in node.walk()):
                continue
            hide = src.bool()
            c, d = [attempt(Dumper(isodates=True, hidedefault=hide).dump, i.value) for i in (a, b)]
            text += ['dump(%s) -> %r' % (lit(a.value), c), 'dump(%s) -> %r' % (lit(b.value), d)]
            if c.ok != d.ok or c.ok and not eq(c.value, d.value):
                fail('the order changes the dump', *text)
