"""Name mangling is only a renaming of the keys in the data"""
from tlv.gen import *
from tlv.rt import *


def plainless(v):
    """Any let something through that can not be dumped"""
    return 'b\'' in lit(v) or 'b"' in lit(v)


class P(Prop):
    id = 'C15'
    quick = 40000
    thorough = 1200000
    rule = ('A random dataclass or attrs class and a copy of it in which some fields have another name in the metadata (also names swapped '
            'between fields, python keywords, names of methods of dict). Data for the first is renamed and given to the second, possibly '
            'with faults and unknown keys; values are dumped from both. Non-trivial: a renamed field is in the data.')

    def check(self, src, case):
        key = src.weighted([(6, 'name'), (2, 'alt'), (1, 'json')])
        cfg = Cfg(failonextra=src.bool(40), basiccast=not src.bool(30), mangle_key=key)
        g = Gen(src, Profile(mangling=False, recursion=False, dumpable=True, unions='disjoint', isodates=True, eq_always=True), cfg=cfg)
        a = g.obj(src.int(0, 2), kind=src.choice(('dc', 'at')))
        if not a.fields:
            raise Discard('no fields')
        fs = [Field(f.name, f.node, f.default, f.factory, {}, f.init, f.notrequired, f.computed, f.repr, f.kwonly) for f in a.fields]
        for x, f in zip(fs, a.fields):
            x.alias = f.alias
        pairs = []
        for f in fs:
            if src.bool(55):
                n = src.choice(MANGLED + ('b', 'y', 'type')) if src.bool(88) else src.choice((1, 0, True, 2.5, ('a', 'b'), b'k', -1, ()))
                pairs.append((f, n))
        if len(fs) > 1 and src.bool(25):
            x, y = src.sample(fs, 2)
            pairs = [(f, n) for f, n in pairs if f is not x and f is not y] + [(x, y.name), (y, x.name)]
        final = {f.name: f.name for f in fs}
        for f, n in pairs:
            final[f.name] = n
        if len(set(final.values())) != len(final):
            raise Discard('ambiguous names')
        for f in fs:
            if final[f.name] != f.name or src.bool(10):
                f.names[key] = final[f.name]
            if key != 'name' and src.bool(20):
                f.names['name'] = 'other_' + f.name
            if key == 'name' and src.bool(10):
                f.names['unrelated'] = 'zz'
        b = ObjN(g.prog, a.kind, fs, **a.opt)
        case.say(g.prog.source())
        renamed = {n: d for n, d in final.items() if n != d}
        hidden = set(renamed) - set(final.values())

        def rename(m):
            return {final.get(k, k): v for k, v in m.items()}

        wrap = src.draw(5)

        def dress(x, t):
            return [(x, t.typ), ([x], g.prog.eval('List[%s]' % t.expr)), ({'k': x}, g.prog.eval('Dict[str, %s]' % t.expr)),
                    ((1, x), g.prog.eval('Tuple[int, %s]' % t.expr)), (x, g.prog.eval('Optional[%s]' % t.expr))][wrap]
        la, lb = make_loader(src, cfg), make_loader(src, cfg)
        for _ in range(3):
            try:
                v = a.value(src)
                raw = a.raw(src, v, Style(cfg=cfg, cast=src.bool(30)))
            except Collision:
                raise Discard('collision')
            if src.bool(30):
                raw = corrupt(src, raw, odd=False)
                if not isinstance(raw, dict):
                    continue
            # Names that exist only in the data of the second
            raw = {k: x for k, x in raw.items() if k in final or k not in final.values()}
            ren = rename(raw)
            shuffled = src.bool()
            if shuffled:
                ren = {k: ren[k] for k in src.shuffle(list(ren))}
            if src.bool(25):
                k = src.choice(('extra', 'zz', 'Name'))
                if k not in final and k not in final.values():
                    raw[k] = ren[k] = 1
            mapping = src.weighted([(6, dict), (1, types.MappingProxyType), (1, collections.UserDict), (1, lambda x: argparse.Namespace(**x))])
            if any(type(k) is not str for k in (*raw, *ren)):
                mapping = dict
            da, ta = dress(mapping(raw), a)
            db, tb = dress(mapping(ren), b)
            oa = clean(attempt(la.load, materialise(da), ta), 'load')
            ob = clean(attempt(lb.load, materialise(db), tb), 'load(%s, %s)' % (lit(db), b.expr))
            text = ['load(%s, %s, **%s) -> %r' % (lit(da), ta, cfg.kwargs(), oa), 'load(%s, %s, **%s) -> %r' % (lit(db), tb, cfg.kwargs(), ob)]
            case.say(*text)
            case.evaluated((g.prog.source(), lit(ren)) if any(n in raw for n in renamed) else None)
            case.label('loaded' if oa.ok else 'rejected', 'swap' if set(renamed) & set(renamed.values()) else 'rename')
            if oa.ok != ob.ok:
                fail('the names change the outcome', *text)
            if not oa.ok:
                if not shuffled and type(oa.exc) is not type(ob.exc):
                    fail('the names change the error', *text)
                continue

            def unwrap(x):
                return [x, lambda: x[0], lambda: x['k'], lambda: x[1], x][wrap] if wrap in (0, 4) else \
                    [None, lambda: x[0], lambda: x['k'], lambda: x[1]][wrap]()
            va, vb = unwrap(oa.value), unwrap(ob.value)
            if type(vb) is not b.typ:
                fail('not a %s' % b.name, *text)
            for f in fs:
                if not (same if not f.node.contains(AnyN) else eq)(getattr(va, f.name), getattr(vb, f.name)):
                    fail('field %s is %s and %s' % (f.name, lit(getattr(va, f.name)), lit(getattr(vb, f.name))), *text)
            # Dumps
            d = DCfg(hidedefault=src.bool(), isodates=True, mangle_key=key)
            xa, xb = do_dump(src, d, va), do_dump(src, d, vb)
            dt = ['dump(%s) -> %r' % (lit(va), xa), 'dump(%s, **%s) -> %r' % (lit(vb), d.kwargs(), xb)]
            if not xa.ok and not xb.ok and va is not None and plainless(va):
                continue
            if not xa.ok or not xb.ok or not same(rename(xa.value), xb.value):
                fail('the dump is not the renamed dump', *dt)
            # With another key the names are the python ones
            c2 = Cfg(**dict(cfg.kwargs(), mangle_key='nokey'))
            oc = do_load(src, c2, raw, b.typ)
            oa2 = do_load(src, c2, raw, a.typ)
            if oa2.ok != oc.ok or oc.ok and any(not eq(getattr(oa2.value, f.name), getattr(oc.value, f.name)) for f in fs):
                fail('without the key of the metadata the names are not the python ones', 'load(%s, %s) -> %r' % (lit(raw), b.expr, oc),
                     repr(oa2))
            xc = do_dump(src, DCfg(hidedefault=d.hidedefault, isodates=True, mangle_key='nokey'), vb)
            if not xc.ok or not same(xa.value, xc.value):
                fail('without the key of the metadata the dumped names are not the python ones', repr(xc), repr(xa))
            # The python name of a renamed field means nothing
            here = sorted(n for n in hidden if final[n] in ren)
            if here:
                n = src.choice(here)
                bad = dict(ren)
                x = src.choice(('unused', 'unused', None, 0, '', [], {}, False, ren[final[n]]))
                if src.bool():
                    bad = {n: x, **bad}
                else:
                    bad[n] = x
                od = do_load(src, cfg, bad, b.typ)
                dt = 'load(%s, %s, **%s) -> %r' % (lit(bad), b.expr, cfg.kwargs(), od)
                if cfg.failonextra:
                    if od.ok:
                        fail('the python name of a renamed field is accepted', dt)
                elif not od.ok or not eq(od.value, vb):
                    fail('the python name of a renamed field is not ignored', dt)
                del bad[final[n]]
                od = do_load(src, cfg, bad, b.typ)
                f = [f for f in fs if f.name == n][0]
                dt = 'load(%s, %s, **%s) -> %r' % (lit(bad), b.expr, cfg.kwargs(), od)
                if od.ok and f.init and (b.required(f) or cfg.failonextra):
                    fail('the python name was used in place of the other', dt)

    def regressions(self):
        import attr
        from dataclasses import dataclass, field

        @dataclass
        class D:
            a: int = field(metadata={'name': 'keys'})
            keys: int = field(default=1, metadata={'name': 'b'})

        @attr.s
        class T:
            a = attr.ib(type=int, metadata={'name': 'keys'})

        def ns():
            for t in (D, T):
                o = attempt(typedload.load, argparse.Namespace(keys=3), t)
                assert o.ok and o.value.a == 3, o
        yield regression(self, 'namespace', ns)

        @dataclass
        class E:
            a: int = field(metadata={'name': ''})

        def empty():
            o = attempt(typedload.dump, E(1))
            assert o.ok and o.value == {'': 1}, o
            o = attempt(typedload.load, {'': 1}, E)
            assert o.ok and o.value == E(1), o
        yield regression(self, 'empty', empty)
