"""failonextra: what is not used by the type is refused, otherwise it is ignored"""
from tlv.gen import *
from tlv.rt import *
from props.c07 import places, getat2, setat2


def deep_places(node, raw, cfg, path=()):
    """(path, object or tuple node), entering the optionals"""
    if isinstance(node, NewTypeN):
        yield from deep_places(node.inner, raw, cfg, path)
    elif isinstance(node, RefN):
        yield from deep_places(node.target, raw, cfg, path)
    elif isinstance(node, SeqN):
        if node.kind == 'list' or node.kind == 'tuple':
            for i, x in enumerate(raw):
                yield from deep_places(node.inner, x, cfg, path + (i,))
    elif isinstance(node, TupleN):
        yield path, node
        for i, (n, x) in enumerate(zip(node.inners, raw)):
            yield from deep_places(n, x, cfg, path + (i,))
    elif isinstance(node, DictN):
        for k, x in is_mapping(raw, cfg).items():
            yield from deep_places(node.val, x, cfg, path + (k,))
    elif isinstance(node, UnionN):
        for m in node.members:
            if m.verdict(raw, cfg) == OK and not m.basic:
                yield from deep_places(m, raw, cfg, path)
                break
    elif isinstance(node, ObjN):
        yield path, node
        fm, hidden = node.fieldmap(cfg)
        for k, x in is_mapping(raw, cfg).items():
            f = fm.get(k)
            if f is not None and f.init:
                yield from deep_places(f.node, x, cfg, path + (k,))


class P(Prop):
    id = 'C08'
    quick = 50000
    thorough = 1200000
    rule = ('A random type with objects or fixed tuples at any depth (no ambiguous unions), a valid encoding, and one unknown key or item '
            'planted in one of them: unknown names, odd keys, the python name of a mangled field. Non-trivial: something was planted.')

    def check(self, src, case):
        mk = 'alt' if src.bool(10) else 'name'
        strict = Cfg(failonextra=True, basiccast=not src.bool(30), mangle_key=mk)
        lax = Cfg(failonextra=False, basiccast=strict.basiccast, mangle_key=mk)
        p = Profile(unions='optional')
        p.weights = dict(p.weights, obj=40, tuple=14, basic=20, any=0)
        g = Gen(src, p, cfg=strict)
        node = g.type(top=True)
        if not node.contains(ObjN, TupleN):
            node = g.obj(2)
        case.say(g.prog.source())
        try:
            raw = node.raw(src, node.value(src), Style(cfg=strict, maps=src.bool(25)))
        except Collision:
            raise Discard('collision')
        a = clean(do_load(src, strict, raw, node.typ), 'load')
        b = clean(do_load(src, lax, raw, node.typ), 'load')
        text = 'load(%s, %s, **%s)' % (lit(raw), node.expr, strict.kwargs())
        case.say('%s -> %r' % (text, a))
        case.evaluated()
        if not a.ok:
            fail('data without anything extra is refused', '%s -> %r' % (text, a))
        both(a, b, text, 'without failonextra')
        ps = list(deep_places(node, raw, strict))
        if not ps:
            return
        for _ in range(3):
            path, n = ps[max(src.draw(len(ps)), src.draw(len(ps)))]
            old = getat2(raw, path)
            if isinstance(n, TupleN):
                new = list(old) + [json_like(src, 1) for _ in range(src.int(1, 2))]
                new = Lazy(src.choice(('deque', 'values')), new) if src.bool(20) else type(old)(new)
                kind = 'tuple'
            else:
                m = is_mapping(old, strict)
                fm, hidden = n.fieldmap(strict)
                cand = [i for i in ('extra', 'a.b', 'zz', '', 'Name', 'x', 'a', 'type', 'items', '$schema', '_private', '__class', '@context', '#', '//', 'comment',
                                    'self_', 'cls', 'A', 'extra ', '0', 'None') if i not in fm]
                k = src.draw(4)
                if k == 0 and hidden:
                    key = src.choice(sorted(hidden))
                    kind = 'python name'
                elif k == 1 and not isinstance(old, argparse.Namespace):
                    key = src.choice((1, None, (1, 2), 0.5, b'x', True))
                    kind = 'odd key'
                else:
                    key = src.choice(cand)
                    kind = 'unknown'
                    if key in n.known(strict):
                        kind = 'python name'
                items = list(m.items())
                items.insert(src.draw(len(items) + 1), (key, json_like(src, 1)))
                if src.bool(6) and not isinstance(old, argparse.Namespace):
                    # Many, in any order, of different kinds
                    many = src.int(2, 40)
                    items += [('more %d' % i if src.bool(80) else i + 10, i) for i in range(many)]
                    items = src.shuffle(items)
                new = dict(items)
                if isinstance(old, argparse.Namespace):
                    old, new = new, argparse.Namespace()
                    vars(new).update(old)
                elif type(old) is not dict:
                    new = type(old)(new)
                # Both names of the same field
            data = setat2(raw, path, new)
            s = clean(do_load(src, strict, data, node.typ), 'load(%s, %s)' % (lit(data), node.expr))
            l = clean(do_load(src, lax, data, node.typ), 'load(%s, %s)' % (lit(data), node.expr))
            case.label(kind, 'depth %d' % min(len(path), 4))
            case.evaluated((g.prog.source(), node.expr, lit(data)))
            text2 = 'load(%s, %s, **%s)' % (lit(data), node.expr, strict.kwargs())
            case.say('%s -> %r' % (text2, s))
            if s.ok:
                fail('extra data accepted despite failonextra (%s)' % kind, '%s -> %r' % (text2, s))
            both(a, l, text, 'failonextra=False, with extra data: load(%s)' % lit(data))

    def regressions(self):
        from typing import NamedTuple

        class A(NamedTuple):
            a: int

        def intkey():
            o = attempt(typedload.load, {'a': 1, 2: 3}, A, failonextra=True)
            assert isinstance(o.exc, TypedloadValueError), o
        yield regression(self, 'int-key', intkey)
