"""argparse.Namespace is the same as a dictionary"""
from typing import Dict, List
from tlv.gen import *
from tlv.rt import *
from props.c07 import places, getat2, setat2


class Options(argparse.Namespace):
    """Those of some programs"""
    def verbose(self):
        return True


def derive(x):
    """Every Namespace becomes one of a subclass"""
    if type(x) is argparse.Namespace:
        for i in vars(x).values():
            derive(i)
        x.__class__ = Options
    elif type(x) in (list, tuple):
        for i in x:
            derive(i)
    elif type(x) is dict:
        for i in x.values():
            derive(i)
    return x


def swap(src, node, raw, cfg, all_=False):
    """The data with the dictionaries that become objects or dict replaced by Namespace, and how many there are"""
    n = 0
    ps = sorted(((p, x) for p, a, x, l in places(node, raw, cfg)), key=lambda i: -len(i[0]))
    for path, x in ps:
        while isinstance(x, (NewTypeN, RefN)):
            x = x.target if isinstance(x, RefN) else x.inner
        if isinstance(x, UnionN):
            x = next((m for m in x.members if not m.basic), x)
        if not isinstance(x, (ObjN, DictN)) or any(isinstance(i, tuple) and i[:1] == ('key',) for i in path):
            continue
        old = getat2(raw, path)
        if type(old) is not dict or not all(type(k) is str for k in old):
            continue
        if all_ or src.bool(70):
            raw = setat2(raw, path, argparse.Namespace(**old))
            n += 1
    return raw, n


class P(Prop):
    id = 'C22'
    quick = 50000
    thorough = 1200000
    rule = ('A random type and data for it, valid or with one fault, in which some or all of the dictionaries in the place of objects and '
            'dictionaries are replaced by Namespace with the same content; both are loaded. With dictequivalence=False any Namespace must '
            'be refused. Attributes named as the methods of dict or of Namespace are included. Non-trivial: at least one was replaced.')

    def wide(self, src, case):
        """Many attributes: the order is that of the dictionary"""
        names = src.shuffle(['n%d' % i for i in range(30)] + list('abcxyzABC_') + ['keys', 'get', 'items', '_get_kwargs', '__dict', '1', 'a b'])[:src.int(0, 25)]
        names = [n for n in names if n != '_get_kwargs']
        data = {n: src.int(0, 99) for n in names}
        for t, d in ((Dict[str, int], lambda x: x), (List[Dict[str, str]], lambda x: [x]), (Dict[str, Dict[str, int]], lambda x: {'k': x})):
            a = attempt(typedload.load, d(data), t)
            b = attempt(typedload.load, d(argparse.Namespace(**data)), t)
            text = ['load(%s, %s) -> %r' % (lit(d(data)), t, a), 'with Namespace: %r' % b]
            case.say(*text)
            case.evaluated((lit(data),) if data else None)
            case.label('wide')
            if not a.ok or not b.ok or repr(a.value) != repr(b.value):
                fail('Namespace and dict differ', *text)

    def check(self, src, case):
        if src.bool(4):
            return self.wide(src, case)
        cfg = Cfg(failonextra=src.bool(40), basiccast=not src.bool(30), mangle_key='alt' if src.bool(10) else 'name')
        p = Profile(unions=src.choice(('none', 'optional')), eq_always=True)
        p.weights = dict(p.weights, obj=34, dict=14, basic=20, any=0)
        g = Gen(src, p, cfg=cfg)
        node = g.type(top=True)
        if not node.contains(ObjN, DictN):
            node = g.obj(1)
        case.say(g.prog.source())
        l = make_loader(src, cfg)
        off = Cfg(**dict(cfg.kwargs(), dictequivalence=False))
        loff = make_loader(src, off)
        for _ in range(3):
            try:
                raw = node.raw(src, node.value(src), Style(cfg=cfg, cast=src.bool(30), extra=not cfg.failonextra))
            except Collision:
                raise Discard('collision')
            if src.bool(35):
                # a fault in a leaf, or in the keys of an object
                ps = [i for i in places(node, raw, cfg) if not any(isinstance(x, tuple) for x in i[0])]
                path, ann, leaf, loose = src.choice(ps)
                if leaf.basic or isinstance(leaf, (ScalarN, LiteralN, EnumN)):
                    raw = setat2(raw, path, src.choice(('bad', None, [], 3, 'x y', [[]])))
                elif isinstance(leaf, ObjN):
                    m = dict(is_mapping(getat2(raw, path), cfg))
                    if m and src.bool():
                        del m[src.choice(list(m))]
                    else:
                        m['_zz'] = 1
                    raw = setat2(raw, path, m)
            try:
                ns, n = swap(src, node, raw, cfg, src.bool())
            except (TypeError, AttributeError, KeyError, IndexError):
                raise Discard('fault')
            if not n:
                continue
            a = clean(attempt(l.load, materialise(raw), node.typ), 'load(%s, %s)' % (lit(raw), node.expr))
            data = materialise(ns)
            before = ns
            if not has_lazy(ns) and src.bool(20):
                derive(data)
                before = derive(materialise(ns))
                case.label('subclass')
            b = clean(attempt(l.load, data, node.typ), 'load(%s, %s)' % (lit(ns), node.expr))
            text = ['load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), a), 'load(%s, _) -> %r' % (lit(ns), b)]
            case.say(*text)
            case.label('loaded' if a.ok else 'rejected', 'replaced %d' % min(n, 4))
            case.evaluated((g.prog.source(), node.expr, lit(ns)))
            if a.ok != b.ok:
                fail('Namespace and dict differ', *text)
            if not same(before, data):
                fail('load() changed the Namespace into %s' % lit(data), *text)
            if a.ok:
                if not same(a.value, b.value) and not (before is not ns and node.contains(AnyN)):
                    fail('Namespace and dict give different values', *text)
            else:
                if type(a.exc) is not type(b.exc):
                    fail('Namespace and dict give different exceptions', *text)
                x, y = annots(a.exc), annots(b.exc)
                if [i for i, _ in x] != [i for i, _ in y] or [v for i, v in x if i in ('field', 'index', 'key')] != [v for i, v in y if i in ('field', 'index', 'key')]:
                    fail('Namespace and dict give errors in different positions', *text)
            c = clean(attempt(loff.load, materialise(ns), node.typ), 'load with dictequivalence=False')
            if c.ok and not node.any_union():
                fail('Namespace is accepted with dictequivalence=False', 'load(%s, %s) -> %r' % (lit(ns), node.expr, c))
            e = clean(attempt(loff.load, materialise(raw), node.typ), 'load with dictequivalence=False')
            both(a, e, text[0], 'with dictequivalence=False')

    def regressions(self):
        from typing import NamedTuple, Dict

        class A(NamedTuple):
            keys: int
            get: int = 1

        def names():
            o = attempt(typedload.load, argparse.Namespace(keys=3, get=2), A)
            assert o.ok and o.value == A(3, 2), o
            o = attempt(typedload.load, argparse.Namespace(items=3), Dict[str, int])
            assert o.ok and o.value == {'items': 3}, o
        yield regression(self, 'names', names)
