"""Tagged unions: the Literal field decides"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C11'
    quick = 50000
    thorough = 1200000
    rule = ('A union of 2-5 objects of any kind sharing a Literal field with disjoint values, with structurally similar fields, possibly '
            'mangled or with a default, plus optional non-object alternatives; data carrying the tag of one of them, valid or with a fault '
            'elsewhere, an unknown tag, an unhashable tag or no tag; alone and nested. Non-trivial: every case with a tag in the data.')

    def first(self, src, case):
        """The alternative with the tag is tried before the others"""
        prog = Prog()
        n = src.int(2, 5)
        tags = src.shuffle(['a', 'b', 'c', 1, 2, 3, 'd', 4, 5, 'e'])
        names = []
        log = []
        fieldname = src.choice(('t', 'type', 'kind'))
        decoy = src.bool(30)
        for i in range(n):
            mine = [tags[2 * i]] + ([tags[2 * i + 1]] if src.bool(30) else [])
            kind = src.choice(('nt', 'dc', 'at', 'td'))
            fields = ['p%d: Mark%d' % (i, i), '%s: Literal[%s]' % (fieldname, ', '.join(map(repr, mine)))]
            if decoy and src.bool():
                fields.append('zz%d: Literal["same"]' % i)
            prog.add('class Mark%d:\n    pass' % i)
            prog.add({'nt': 'class T%d(NamedTuple):', 'td': 'class T%d(TypedDict):', 'dc': '@dataclass\nclass T%d:', 'at': '@attr.define\nclass T%d:'}[kind] % i +
                     ''.join('\n    ' + f for f in src.shuffle(fields)))
            names.append(('T%d' % i, mine))
        case.say(prog.source())
        marks = {prog.ns['Mark%d' % i]: i for i in range(n)}

        def mark(l, v, t):
            log.append(marks[t])
            if v == 'bad':
                raise TypedloadValueError('bad mark', value=v, type_=t)
            return v
        l = Loader()
        l.handlers.insert(0, (lambda t: t in marks, mark))
        expr = 'Union[%s]' % ', '.join(src.shuffle([i for i, _ in names]))
        place = src.choice(('%s', 'List[%s]', 'Dict[str, %s]', 'Tuple[%s, ...]'))
        typ = prog.eval(place % expr)
        for _ in range(3):
            i = src.draw(n)
            bad = src.bool(30)
            x = {**{'p%d' % j: 'bad' if bad else j for j in range(n)}, **{'zz%d' % j: 'same' for j in range(n)}, fieldname: src.choice(names[i][1])}
            x = {k: x[k] for k in src.shuffle(list(x))}
            del log[:]
            o = clean(attempt(l.load, {'%s': x, 'List[%s]': [x], 'Dict[str, %s]': {'k': x}, 'Tuple[%s, ...]': (x,)}[place], typ), 'load')
            text = 'load(%s, %s) -> %r, fields loaded of the classes %s' % (lit(x), typ, o, log)
            case.say(text)
            case.label('first')
            case.evaluated((prog.source(), lit(x)))
            if o.ok == bad:
                fail('expected to be ' + ('refused' if bad else 'accepted'), text)
            if log[:1] != [i] or not bad and log != [i]:
                fail('the object with the tag was not tried first', text)
            if bad:
                e = o.exc
                while e.exceptions and not e.trace[-1].type_ in marks:
                    e = e.exceptions[0]
                if marks.get(e.trace[-1].type_) != i:
                    fail('the first error is not the one of the object with the tag', text)

    def check(self, src, case):
        if src.bool(6):
            return self.first(src, case)
        cfg = Cfg(basiccast=not src.bool(30), failonextra=src.bool(30))
        p = Profile(unions='optional', recursion=False)
        p.weights = dict(p.weights, basic=50, obj=8, any=0, union=4)
        p.maxfields = 3
        p.eq_always = True
        g = Gen(src, p, cfg=cfg)
        defaults = src.bool(25)
        objs = g.tagged(src.int(0, 1), defaults, n=src.int(2, 5))
        tag = g.tagname
        # all the objects have the field with the tag
        tags = {}
        for o in objs:
            f = [f for f in o.fields if f.name == tag and isinstance(f.node, LiteralN)]
            assert f, (tag, o.text)
            tags[o.name] = f[0]
        ms = list(objs)
        if src.bool(40):
            ms.append(BasicN(type(None)))
        if src.bool(20):
            ms.append(BasicN(src.choice((int, float))))
        if src.bool(15):
            ms.append(SeqN(g.prog, 'list', BasicN(int)))
        ms = src.shuffle(ms)
        u = UnionN(g.prog, ms, src.draw(3))
        case.say(g.prog.source())
        wrap = src.draw(4)
        typ = [u.typ, g.prog.eval('List[%s]' % u.expr), g.prog.eval('Dict[str, %s]' % u.expr), None][wrap]
        if wrap == 3:
            n = g.prog.fresh('W')
            g.prog.add('class %s(NamedTuple):\n    f: %s' % (n, u.expr))
            typ = g.prog.ns[n]
        l = make_loader(src, cfg)
        for _ in range(src.int(1, 4)):
            o = src.choice(objs)
            try:
                raw = o.raw(src, o.value(src), Style(cfg=cfg, cast=src.bool(30), extra=not cfg.failonextra and src.bool(30)))
            except Collision:
                raise Discard('collision')
            key = tags[o.name].dataname('name') if o.kind in ('dc', 'at') else tag
            fault = src.weighted([(5, 'none'), (3, 'other'), (2, 'badtag'), (1, 'unhashable'), (2, 'notag'), (2, 'swap')])
            if fault == 'other':
                raw = corrupt(src, raw, odd=src.bool(30))
            elif fault == 'badtag':
                raw[key] = src.choice(('zz', 99, None, 1.5, 'TYPE', (1, 2)))
            elif fault == 'unhashable':
                raw[key] = src.choice(([], {}, ['a'], {'a': 1}))
            elif fault == 'notag':
                raw.pop(key, None)
            elif fault == 'swap':
                # The tag of one, the data of another
                o2 = src.choice(objs)
                raw[tags[o2.name].dataname('name') if o2.kind in ('dc', 'at') else tag] = src.choice(tags[o2.name].node.values)
            if has_lazy(raw):
                continue
            if isinstance(raw, dict) and src.bool(25):
                raw = src.choice((types.MappingProxyType(raw), collections.UserDict(raw),
                                  argparse.Namespace(**raw) if all(type(k) is str for k in raw) else raw))
            data = [raw, [raw], {'k': raw}, {'f': raw}][wrap]
            r = clean(attempt(l.load, materialise(data), typ), 'load(%s, %s)' % (lit(data), u.expr))
            text = 'load(%s, %s, **%s) -> %r' % (lit(data), typ, cfg.kwargs(), r)
            case.say(text)
            m = is_mapping(raw, cfg)
            # Who can be loaded, according to the tag
            owners = []
            if m is not None:
                for x in objs:
                    k = tags[x.name].dataname('name') if x.kind in ('dc', 'at') else tag
                    if k in m:
                        if any(m[k] == i for i in tags[x.name].node.values):
                            owners.append(x)
                    elif tags[x.name].has_default or not x.required(tags[x.name]):
                        owners.append(x)
            case.label(fault, 'loaded' if r.ok else 'rejected', 'owners %d' % min(len(owners), 2))
            case.evaluated((g.prog.source(), u.expr, lit(data)) if m is not None else None)
            v = u.verdict(raw, cfg)
            if v == OK and not r.ok:
                fail('valid data is rejected', text)
            if m is None:
                continue
            if len(owners) == 1 and not defaults:
                one = owners[0].verdict(raw, cfg)
                if one == OK and not r.ok or one == BAD and r.ok:
                    fail('the tag says %s, for which the data is %s' % (owners[0].name, one), text)
            if not r.ok:
                continue
            out = [r.value, r.value, r.value, r.value][0]
            out = out if wrap == 0 else out[0] if wrap in (1, 3) else out['k']
            if not owners and v == BAD:
                fail('no alternative has that tag', text)
            good = [x for x in owners if examine(x.match, raw, out, cfg) is None]
            others = any(x.verdict(raw, cfg) != BAD for x in ms if not isinstance(x, ObjN))
            if not good and not others:
                fail('expected one of %s, according to the tag' % [x.name for x in owners], text)

    def regressions(self):
        from typing import NamedTuple, Literal, Union

        class A(NamedTuple):
            t: Literal['a']

        class B(NamedTuple):
            t: Literal['b']

        def unhashable():
            for x in ([], {}, [['a']]):
                o = attempt(typedload.load, {'t': x}, Union[A, B])
                assert isinstance(o.exc, TypedloadValueError), o
        yield regression(self, 'unhashable-discriminator', unhashable)
