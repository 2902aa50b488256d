"""Errors tell where in the data the problem is"""
from tlv.gen import *
from tlv.rt import *


def places(node, raw, cfg, path=(), ann=(), loose=False, depth=0):
    """
    All the (path in the data, annotations, node, inside a container) at which data is loaded.
    Does not enter the unions: an error inside one is reported at the union.
    """
    yield path, ann, node, loose
    if depth > 30:
        return
    d = depth + 1
    if isinstance(node, NewTypeN):
        for p in places(node.inner, raw, cfg, path, ann, False, d):
            if p[2] is not node.inner or True:
                yield p
    elif isinstance(node, RefN):
        yield from places(node.target, raw, cfg, path, ann + (('forwardref', node.name),), False, d)
    elif isinstance(node, SeqN):
        for i, x in enumerate(raw):
            yield from places(node.inner, x, cfg, path + (i,), ann + (('index', i),), True, d)
    elif isinstance(node, TupleN):
        for i, (n, x) in enumerate(zip(node.inners, raw)):
            yield from places(n, x, cfg, path + (i,), ann + (('index', i),), False, d)
    elif isinstance(node, DictN):
        for k, x in is_mapping(raw, cfg).items():
            yield path + (('key', k),), ann + (('key', k),), node.key, True
            yield from places(node.val, x, cfg, path + (k,), ann + (('value', x),), True, d)
    elif isinstance(node, ObjN):
        fm, hidden = node.fieldmap(cfg)
        for k, x in is_mapping(raw, cfg).items():
            f = fm.get(k)
            if f is not None and f.init:
                yield from places(f.node, x, cfg, path + (k,), ann + (('field', f.name),), False, d)


def steps_of(node, ann, data, cfg, key=None):
    """(data, type) that are found at each step; (None,) for the data when it can not be known"""
    data = (data,)
    for k, v in ann:
        while isinstance(node, NewTypeN):
            node = node.inner
        if k == 'forwardref':
            node = node.target
        elif k == 'index':
            node = node.inner if isinstance(node, SeqN) else node.inners[v]
            data = (data[0][v],) if data and type(data[0]) in (list, tuple) else ()
        elif k == 'key':
            node, data = node.key, (v,)
        elif k == 'value':
            node, data = node.val, (v,)
        else:
            f = [f for f in node.fields if f.name == v][0]
            m = is_mapping(data[0], cfg) if data else {}
            node, data = f.node, (m[f.dataname(cfg.mangle_key)],) if m else ()
        yield data, node


def expected_text(ann):
    parts = ['']
    for k, v in ann:
        if k == 'field' or k == 'forwardref':
            parts.append(v)
        elif k == 'index':
            parts.append('[%d]' % v)
        else:
            return None
    return '.'.join(parts) if len(parts) > 1 else '.'


class P(Prop):
    id = 'C07'
    quick = 60000
    thorough = 1500000
    rule = ('A random type, a valid encoding of a random value, and one single fault planted at a random place: a value that can not be '
            'loaded there, a missing required field or an unknown field. The trace must have exactly the steps that lead there. '
            'Non-trivial: the place is at least one step deep; the distribution of depths is in the labels.')
    assumptions = ('Errors inside the alternatives of a union are reported at the union, with the details in the sub-exceptions (C10).',)

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.dictequivalence = True
        p = Profile(unions=src.choice(('any', 'none', 'none')))
        p.weights = dict(p.weights, basic=20, seq=16, tuple=9, dict=11, obj=26)
        g = Gen(src, p, cfg=cfg)
        node = g.type(top=True)
        case.say(g.prog.source())
        try:
            raw = node.raw(src, node.value(src), Style(cfg=cfg, maps=src.bool(20), cast=False))
        except Collision:
            raise Discard('collision')
        for _ in range(3):
            self.one(src, case, cfg, g, node, raw)

    def one(self, src, case, cfg, g, node, raw):
        ps = list(places(node, raw, cfg))
        if src.bool(90):
            ps = [i for i in ps if i[1]] or ps
        # favour the deep ones
        path, ann, leaf, loose = ps[max(src.draw(len(ps)), src.draw(len(ps)))]
        iskey = bool(path) and isinstance(path[-1], tuple) and path[-1][:1] == ('key',) and ann[-1][0] == 'key'
        target = leaf
        while isinstance(target, (NewTypeN, RefN)):
            if isinstance(target, RefN):
                ann = ann + (('forwardref', target.name),)
                target = target.target
            else:
                target = target.inner
        if isinstance(target, AnyN):
            return
        kind = 'value'
        bad = None
        if isinstance(target, ObjN) and not iskey and src.bool(40):
            # A fault of the object itself
            old = is_mapping(getat2(raw, path), cfg)
            fm, hidden = target.fieldmap(cfg)
            req = [k for k, f in fm.items() if target.required(f) and k in old]
            if cfg.failonextra and src.bool(50):
                kind = 'extra'
                names = target.known(cfg)
                n = src.choice([i for i in ('extra', 'zz', 'Extra.field', '_x') if i not in names])
                bad = dict(old)
                bad[n] = 1
            elif req:
                kind = 'missing'
                bad = dict(old)
                del bad[src.choice(req)]
        if kind == 'value':
            if isinstance(target, SeqN):
                bad = src.choice((3, None, 2.5, True, {}, {'a': 1}))
            elif isinstance(target, TupleN):
                bad = src.choice((3, None, 2.5, True, {}, {'a': 1}, 'short', 'long'))
                if bad == 'short':
                    bad = list(getat2(raw, path))[:-1] if not iskey else 3
                elif bad == 'long':
                    bad = list(getat2(raw, path)) + [1] if not iskey else 3
            elif isinstance(target, (DictN, ObjN)):
                bad = src.choice((3, None, 'a', [], [1], ['a', 'b'], '', 2.5, True))
            else:
                bad = junk(src, 1, odd=src.bool(30), ns=False)
            if has_lazy(bad):
                return
            if iskey:
                bad = tuplify(bad)
                if unhashable(bad):
                    return
            if leaf.verdict(bad, cfg, loose) != BAD or leaf.verdict(bad, cfg, True) != BAD:
                return
        if iskey:
            m = is_mapping(getat2(raw, path[:-1]), cfg)
            if bad in m:
                return
            new = setat2(raw, path[:-1], {bad if k is path[-1][1] else k: v for k, v in m.items()})
            ann = fix_values(ann[:-1], path[:-1], new) + (('key', bad),)
        else:
            new = setat2(raw, path, bad)
            ann = fix_values(ann, path, new)
        if node.verdict(new, cfg) != BAD:
            raise Discard('still valid')
        if src.rare(10):
            case.label('printed on the way')
            o = attempt(logging_loader(src, cfg).load, materialise(new), node.typ)
        else:
            o = do_load(src, cfg, new, node.typ)
        clean(o, 'load(%s, %s, **%s)' % (lit(new), node.expr, cfg.kwargs()))
        text = 'load(%s, %s, **%s) -> %r' % (lit(new), node.expr, cfg.kwargs(), o)
        case.say(text)
        steps = [a for a in ann]
        case.label('depth %d' % min(len(steps), 6), kind, type(target).__name__)
        case.evaluated((g.prog.source(), node.expr, lit(new)) if steps else None)
        if o.ok:
            fail('invalid data is accepted', text)
        e = o.exc
        got = annots(e)
        if len(got) != len(steps) or not all(a == c and (b is d or same(b, d) or eq(b, d)) for (a, b), (c, d) in zip(got, steps)):
            fail('wrong position', 'expected %r' % (steps,), 'got      %r' % (got,), text)
        if not e.trace or e.trace[0].annotation is not None:
            fail('the trace does not start from the root', text)
        if not same(e.trace[0].value, new) or e.trace[0].type_ != node.typ:
            fail('the first element of the trace is not the call: %r' % (e.trace[0],), text)
        for i, ((data, n), t) in enumerate(zip(steps_of(node, steps, new, cfg), [t for t in e.trace if t.annotation])):
            # What the documentation shows: the data that was being loaded at the step, and the type
            if data and not (t.value is data[0] or same(t.value, data[0])):
                fail('the value at step %d of the trace is %s and not %s' % (i, lit(t.value), lit(data[0])), text)
            if data and not any(isinstance(x, RefN) for x in n.walk()) and norm_type(t.type_) != norm_type(n.typ):
                fail('the type at step %d of the trace is %s and not %s' % (i, t.type_, n.typ), text)
        if kind == 'value' and not isinstance(target, ObjN):
            if not (e.value is bad or same(e.value, bad)):
                fail('the value of the exception is %s and not %s' % (lit(e.value), lit(bad)), text)
        if kind == 'value':
            want = target.typ
            if e.type_ != want and not (want is type(None) and e.type_ is None):
                fail('the type of the exception is %s and not %s' % (e.type_, want), text)
        elif e.type_ != target.typ:
            fail('the type of the exception is %s and not %s' % (e.type_, target.typ), text)
        t = expected_text(steps)
        if t is not None:
            lines = str(e).split('\n')
            if 'Path: ' + t not in lines:
                fail('the description has not the path %s' % t, text)

    def regressions(self):
        from typing import Dict, List, NamedTuple, NewType, Set

        class A(NamedTuple):
            x: int

        N = NewType('N', int)
        cases = [
            ('newtype-path', ['x'], List[N], [('index', 0)], '.[0]'),
            ('nested-newtype-path', {'x': 'q'}, NewType('M', A), [('field', 'x')], '.x'),
            ('unhashable-in-dict', {'a': [[[1]]]}, Dict[str, List[Set[List[int]]]], None, None),
            ('attributeerror-in-dict', {'a': 3}, Dict[str, A], [('value', 3)], None),
        ]

        class O(NamedTuple):
            data: List[int]

        def docs():
            # docs/errors.md
            o = attempt(typedload.load, {'data': [1, 2, 'a']}, O)
            got = [(t.value, t.type_) for t in o.exc.trace]
            assert got == [({'data': [1, 2, 'a']}, O), ([1, 2, 'a'], List[int]), ('a', int)], got
        yield regression(self, 'trace of the documentation', docs)
        for name, raw, t, ann, text in cases:
            def run(raw=raw, t=t, ann=ann, text=text):
                o = attempt(typedload.load, raw, t)
                assert isinstance(o.exc, TypedloadException), o
                if ann is None:
                    assert len(annots(o.exc)) == 2, annots(o.exc)
                else:
                    assert annots(o.exc) == ann, annots(o.exc)
                if text:
                    assert 'Path: ' + text in str(o.exc).split('\n'), str(o.exc)
            yield regression(self, name, run)


def logging_loader(src, cfg):
    """A loader whose handlers look at the exceptions that go through them"""
    l = make_loader(src, cfg)

    def wrap(f):
        def handler(l, value, type_):
            try:
                return f(l, value, type_)
            except TypedloadException as e:
                str(e), repr(e), list(e.trace)
                raise
        return handler
    for i, (c, f) in enumerate(l.handlers):
        l.handlers[i] = (c, wrap(f))
    return l


def getat2(raw, path):
    for p in path:
        if isinstance(raw, argparse.Namespace):
            raw = vars(raw)
        raw = raw[p]
    return raw


def setat2(raw, path, new):
    if not path:
        return new
    p = path[0]
    if isinstance(raw, argparse.Namespace):
        d = dict(vars(raw))
        d[p] = setat2(d[p], path[1:], new)
        return argparse.Namespace(**d)
    if isinstance(raw, (dict, types.MappingProxyType, collections.UserDict)):
        d = dict(raw)
        d[p] = setat2(d[p], path[1:], new)
        return type(raw)(d)
    r = list(raw)
    r[p] = setat2(raw[p], path[1:], new)
    return type(raw)(r)


def fix_values(ann, path, new):
    """The annotations of dictionary values contain the data, which has just changed"""
    out = []
    i = 0
    for k, v in ann:
        if k == 'forwardref':
            out.append((k, v))
            continue
        i += 1
        out.append((k, getat2(new, path[:i])) if k == 'value' else (k, v))
    return tuple(out)
