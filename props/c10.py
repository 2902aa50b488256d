"""Unions"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C10'
    quick = 60000
    thorough = 1500000
    rule = ('A random union of 2-6 alternatives (tagged and untagged objects, containers, scalars, basic types), alone or below a container '
            'or a field, and data valid for one of the alternatives, corrupted, or junk. Each alternative is loaded on its own with the same '
            'options, and the union compared with that. Non-trivial: the data is not a basic value that is a member as it is.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        p = Profile(recursion=False)
        g = Gen(src, p, cfg=cfg)
        node = g.g_union(src.int(1, 3), False, False)
        case.say(g.prog.source())
        members = node.members
        style = Style(cast=src.bool(40), maps=src.bool(30), cfg=cfg, extra=src.bool(30))
        # Other spellings of the same union
        perm = src.shuffle(members)
        others = [UnionN(g.prog, perm, src.draw(3))]
        if len(members) > 2:
            k = src.int(1, len(members) - 2)
            inner = 'Union[%s]' % ', '.join(m.expr for m in perm[k:])
            others.append(g.prog.eval('Union[%s, %s]' % (', '.join(m.expr for m in perm[:k]), inner)))
        shared = make_loader(src, cfg) if src.bool(40) else None
        for _ in range(2 if shared is None else src.int(3, 5)):
            if src.bool(15):
                raw = junk(src, 2)
            elif shared is not None and src.bool(30):
                raw = src.choice((0, 1, 2, 3, 'a', 'b', 'x', 1.5, None, True, [], {}, [1], {'a': 1}))
            else:
                m = src.choice(members)
                raw, n = gen_raw(src, m, style)
            if has_lazy(raw):
                continue
            l = shared or make_loader(src, cfg)
            if shared is not None:
                case.label('used loader')
            o = clean(attempt(l.load, materialise(raw), node.typ), 'load(%s, %s)' % (lit(raw), node.expr))
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
            case.say(text)
            exact = node.exact(raw)
            rs = [(m, clean(do_load(src, cfg, raw, m.typ), 'load(%s, %s)' % (lit(raw), m.expr))) for m in members]
            nok = sum(r.ok for _, r in rs)
            case.label('%d alternatives accept' % min(nok, 3), 'exact' if exact else 'not exact')
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if not exact else None)
            self.judge(node, raw, cfg, o, rs, exact, text)
            for t in others if shared is None or src.bool(30) else ():
                t = getattr(t, 'typ', t)
                o2 = clean(attempt((shared or make_loader(src, cfg)).load, materialise(raw), t), 'load(%s, %s)' % (lit(raw), t))
                self.judge(node, raw, cfg, o2, rs, exact, 'load(%s, %s, **%s) -> %r' % (lit(raw), t, cfg.kwargs(), o2))
            # Inside something
            k = src.draw(4)
            wt = ['List[%s]', 'Dict[str, %s]', 'Tuple[int, %s]', 'FrozenSet[%s]'][k]
            if k == 3 and not node.hashable:
                k, wt = 0, 'List[%s]'
            wt = g.prog.eval(wt % node.expr)
            data = [[raw, raw], {'a': raw, 'b': raw}, [1, raw], [raw]][k]
            w = clean(attempt((shared or make_loader(src, cfg)).load, materialise(data), wt), 'load')
            if w.ok != o.ok:
                fail('different outcome inside a container', text, 'load(%s, %s) -> %r' % (lit(data), wt, w))
            if w.ok:
                for i in (w.value.values() if k == 1 else w.value[1:] if k == 2 else w.value):
                    w1 = Outcome(True, i)
                    self.judge(node, raw, cfg, w1, rs, exact, 'load(%s, %s) -> %r' % (lit(data), wt, w))

    def judge(self, node, raw, cfg, o, rs, exact, text):
        if exact:
            if not o.ok or not same(o.value, raw):
                fail('a basic value of the union is not returned as it is', text)
            return
        oks = [(m, r) for m, r in rs if r.ok]
        if o.ok and not oks:
            fail('accepted, but no alternative accepts the data', text)
        if not o.ok and oks:
            fail('rejected, but %s accepts the data' % oks[0][0].expr, text)
        if o.ok:
            hits = [m for m, r in oks if same(r.value, o.value) or eq(r.value, o.value) and type(r.value) is type(o.value)]
            if not hits:
                fail('the result is none of %s' % ', '.join('%s: %s' % (m.expr, lit(r.value)) for m, r in oks), text)
            if all(m.basic for m in hits) and not all(m.basic for m, _ in oks):
                fail('a basic alternative was preferred to %s' % [m.expr for m, _ in oks if not m.basic], text)
            return
        e = o.exc
        if not isinstance(e, TypedloadException):
            fail('not a TypedloadException', text)
        if len(e.exceptions) != len(rs):
            fail('%d sub-exceptions for %d alternatives' % (len(e.exceptions), len(rs)), text)
        left = [m.typ for m, _ in rs]
        for i in e.exceptions:
            if not isinstance(i, TypedloadException):
                fail('sub-exception %r' % i, text)
            an = annots(i)
            if not an or an[0][0] != 'union':
                fail('the sub-exception does not tell the alternative: %r' % (an,), text)
            t = an[0][1]
            if t in left:
                left.remove(t)
            else:
                fail('alternative %s has no sub-exception of its own' % (t,), text)
        if left:
            fail('no sub-exception for %s' % left, text)

    def regressions(self):
        from typing import List, NamedTuple, Literal, Tuple, Union, Dict

        class A(NamedTuple):
            t: Literal['a']

        class B(NamedTuple):
            t: Literal['b']

        def tuples():
            o = attempt(typedload.load, 3, Union[Tuple[int, int], str, int])
            assert o.ok and o.value == 3, o
            o = attempt(typedload.load, 3.5, Union[Tuple[int, int], str])
            assert o.ok and o.value == '3.5', o
        yield regression(self, 'tuple-without-len', tuples)

        def unhashable():
            o = attempt(typedload.load, {'t': ['x']}, Union[A, B, Dict[str, List[str]]])
            assert o.ok and o.value == {'t': ['x']}, o
        yield regression(self, 'unhashable-discriminator', unhashable)
