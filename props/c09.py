"""basiccast"""
from tlv.gen import *
from tlv.rt import *
from props.c07 import places, getat2, setat2


class P(Prop):
    id = 'C09'
    quick = 50000
    thorough = 1200000
    rule = ('A random type, an exact encoding (which must load identically with and without basiccast), and then one basic value replaced '
            'by a value of another basic type which could be cast: refused without basiccast, and with it equal to the cast. Non-trivial: '
            'a value was replaced.')
    assumptions = ('bool is a subclass of int: where a container of int contains a bool, the result is not specified.',)

    def check(self, src, case):
        mk = 'name'
        strict = Cfg(basiccast=False, failonextra=src.bool(30), mangle_key=mk)
        lax = Cfg(basiccast=True, failonextra=strict.failonextra, mangle_key=mk)
        p = Profile(unions='none')
        p.weights = dict(p.weights, basic=45, any=0)
        g = Gen(src, p, cfg=strict)
        node = g.type(top=True)
        case.say(g.prog.source())
        try:
            raw = node.raw(src, node.value(src), Style(cfg=strict))
        except Collision:
            raise Discard('collision')
        a = clean(do_load(src, strict, raw, node.typ), 'load')
        b = clean(do_load(src, lax, raw, node.typ), 'load')
        text = 'load(%s, %s, **%s)' % (lit(raw), node.expr, strict.kwargs())
        case.say('%s -> %r' % (text, a))
        case.evaluated()
        if not a.ok:
            fail('exact data is refused without basiccast', '%s -> %r' % (text, a))
        both(a, b, text, 'with basiccast')
        ps = []
        for path, ann, n, loose in places(node, raw, strict):
            t = n
            while isinstance(t, NewTypeN):
                t, loose = t.inner, False
            if t.basic and t.typ is not type(None):
                ps.append((path, t, loose))
        if not ps:
            return
        for _ in range(3):
            path, n, loose = src.choice(ps)
            iskey = bool(path) and isinstance(path[-1], tuple) and path[-1][:1] == ('key',)
            pool = {int: ('1', 2.0, '-5', 3.7, True, '1_0', ' 7 ', '2.5', '3.0', '', 'x', None, '1e3', '0x10', b'4', [1], -0.5, 1e22, 2.0 ** 60, '9' * 30, float('inf')), float: (1, '1.5', 'inf', True, '1e5', -3, '1,5', '', ' 2.5 ', None, 10**400, '1_0.5', '0x1p3', [], 2 ** 60, 2 ** 53 + 1, -2 ** 63, 10 ** 30, '1' * 30),
                    str: (1, 2.5, None, True, [1], {'a': 1}, b'x', (), 1e16, -0.0, 0.1 + 0.2, 1 / 3, 1e-7, 123456789.123456789, 5e-324, 2 ** 70, 1e22, 10 ** 25, float('inf')), bool: (0, 1, 'x', '', 2.5, None, [], [0], 'false', 'no', '0', 0.0, 'True')}[n.typ]
            x = src.choice(pool)
            if loose and isinstance(x, n.typ):
                continue
            if iskey:
                if unhashable(x):
                    continue
                m = is_mapping(getat2(raw, path[:-1]), strict)
                if x in m:
                    continue
                data = setat2(raw, path[:-1], {x if k is path[-1][1] else k: v for k, v in m.items()})
            else:
                data = setat2(raw, path, x)
            s = clean(do_load(src, strict, data, node.typ), 'load(%s, %s)' % (lit(data), node.expr))
            l = clean(do_load(src, lax, data, node.typ), 'load(%s, %s)' % (lit(data), node.expr))
            case.label('%s as %s' % (type(x).__name__, n.expr))
            case.evaluated((g.prog.source(), node.expr, lit(data)))
            text2 = 'load(%s, %s, **%s)' % (lit(data), node.expr, strict.kwargs())
            case.say('%s -> %r' % (text2, s))
            if s.ok:
                fail('basiccast=False, but %s was accepted as %s' % (lit(x), n.expr), '%s -> %r' % (text2, s))
            want = node.verdict(data, lax)
            if want == OK and not l.ok or want == BAD and l.ok:
                fail('with basiccast this has to be %s' % want, 'load(%s, %s) -> %r' % (lit(data), node.expr, l))
            if l.ok and want == OK:
                r = examine(node.match, data, l.value, lax)
                if r:
                    fail('wrong cast: ' + r, 'load(%s, %s) -> %r' % (lit(data), node.expr, l))
