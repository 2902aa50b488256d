"""Handlers that call load() and dump() for the parts are as good as the predefined ones"""
from tlv.gen import *
from tlv.rt import *
from typedload.exceptions import Annotation, TraceItem
from props.c28 import hints


def trace(e):
    return [(i.value, norm_type(i.type_), (i.annotation[0].value, i.annotation[1]) if i.annotation else None) for i in e.trace]


def unlike(a, b, where=''):
    """What is different in the exceptions, nested ones included, that does not depend on the words and class used by the handler"""
    x, y = trace(a), trace(b)
    if len(x) != len(y):
        return '%straces of %d and %d steps' % (where, len(x), len(y))
    for n, ((v, t, i), (w, u, j)) in enumerate(zip(x, y)):
        if not (v is w or same(v, w)):
            return '%sstep %d is about %s and %s' % (where, n, lit(v), lit(w))
        if t != u:
            return '%sthe type of step %d is %s and %s' % (where, n, t, u)
        if (i is None) != (j is None) or i and (i[0] != j[0] or not (i[1] is j[1] or same(i[1], j[1]))):
            return '%sthe annotation of step %d is %s and %s' % (where, n, i, j)
    if len(a.exceptions) != len(b.exceptions):
        return '%s%d and %d nested exceptions' % (where, len(a.exceptions), len(b.exceptions))
    for n, (i, j) in enumerate(zip(a.exceptions, b.exceptions)):
        r = unlike(i, j, '%snested %d: ' % (where, n))
        if r:
            return r
    p, q = [[i for i in str(e).split('\n') if i.strip().startswith('Path: ')] for e in (a, b)]
    if p != q:
        return '%sthe printed paths are %s and %s' % (where, p, q)
    return None


class P(Prop):
    id = 'C35'
    quick = 40000
    thorough = 1000000
    rule = ('Random types with objects; in a second loader and dumper some of the classes are treated by handlers written in the documented '
            'way (loader.load() for each field, with its Annotation, dumper.dump() for each field, exceptions of typedload), others by handlers '
            'which delegate to another type. Same data, valid or with faults, to both: same outcome, same values, same trace, nested exceptions '
            'and printed paths, same dumps. Non-trivial: a handler was called below the root.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(8)
        p = Profile(recursion=False, maxfields=4, unions=src.choice(('any', 'disjoint', 'optional')), dumpable=True, isodates=True)
        p.computed = p.validate = False
        p.weights = dict(p.weights, obj=40, basic=20)
        g = Gen(src, p, cfg=cfg)
        objs = []
        for _ in range(3):
            node = g.type(depth=src.int(2, 3), top=True)
            if any(isinstance(n, ObjN) for n in node.walk()):
                break
        for n in node.walk():
            if isinstance(n, ObjN) and not any(n is i for i in objs):
                objs.append(n)
        if not objs:
            raise Discard('no objects')
        chosen = [n for n in objs if src.bool(60)] or [src.choice(objs)]
        case.say(g.prog.source())
        by = {n.typ: n for n in chosen}
        calls = []
        unsure = []
        info = src.bool(70)        # the exceptions of the handler have value and type

        def load(l, value, type_):
            n = by[type_]
            calls.append(type_)
            kw = dict(value=value, type_=type_) if info else {}
            m = is_mapping(value, cfg)
            if m is None:
                raise TypedloadTypeError('an object was expected', **kw)
            fm, hidden = n.fieldmap(cfg)
            hs = hints(n)
            errors, r = [], {}
            known = n.known(cfg)
            if any(k not in m for k, f in fm.items() if n.required(f)):
                errors.append(TypedloadValueError('field missing', **kw))
            if cfg.failonextra and any(k not in known or k in hidden for k in m):
                errors.append(TypedloadValueError('more fields', **kw))
            for k, v in m.items():
                f = fm.get(k)
                if f is None or not f.init:
                    continue
                try:
                    r[f.name] = l.load(v, hs[f.name], annotation=Annotation(AnnotationType.FIELD, f.name))
                except TypedloadException as e:
                    errors.append(e)
            if len(errors) > 1:
                unsure.append(1)      # any of them can be the first
            if errors:
                raise errors[0]
            if n.kind == 'td':
                return r
            try:
                return n.construct(r)
            except (TypeError, ValueError) as e:
                raise TypedloadValueError(str(e), **kw)

        def ldump(d, value, t):
            n = by[type(value)]
            calls.append(type(value))
            hs = hints(n)
            r = {}
            for f in n.fields:
                x = getattr(value, f.name)
                if d.hidedefault and f.has_default and f.default_value() == x:
                    continue
                r[f.dataname(d.mangle_key)] = d.dump(x, hs[f.name]) if typed else d.dump(x)
            return r
        typed = src.bool()
        kwargs = cfg.kwargs()
        plain_, custom = Loader(**kwargs), Loader(**kwargs)
        at = src.draw(3)
        matching = lambda t: isinstance(t, type) and t in by
        if at == 0:
            custom.handlers.insert(0, (matching, load))
        elif at == 1:
            custom.handlers.insert(min(custom.index(n.typ) for n in chosen), (matching, load))
        else:
            custom.handlers = [(matching, load)] + list(custom.handlers)
        dk = dict(hidedefault=src.bool(), isodates=True)
        if cfg.mangle_key != 'name':
            dk['mangle_key'] = cfg.mangle_key
        dplain, dcustom = Dumper(**dk), Dumper(**dk)
        two = src.bool(20)
        dcustom.handlers.insert(0, (lambda v: type(v) in by, (lambda d, v: ldump(d, v, None)) if two else ldump))
        for _ in range(3):
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(20), maps=src.bool(20)), odd=src.bool(30))
            if has_lazy(raw) or single_pass(raw):
                continue
            # More handlers calling each other
            typ, data = node.typ, raw
            del calls[:], unsure[:]
            a = clean(attempt(plain_.load, materialise(data), typ), 'load')
            b = clean(attempt(custom.load, materialise(data), typ), 'load with handlers')
            text = ['load(%s, %s, **%s) -> %r' % (lit(data), node.expr, kwargs, a), 'with handlers for %s -> %r' % ([n.name for n in chosen], b)]
            case.say(*text)
            deep = bool(calls) and not (isinstance(node, ObjN) and node.typ in by and len(calls) == 1)
            case.label('loaded' if a.ok else 'refused', 'unsure' if unsure else 'sure', 'handlers' if calls else 'not called')
            case.evaluated((g.prog.source(), node.expr, lit(data)) if deep else None)
            if a.ok != b.ok:
                fail('the outcome is different with an equivalent handler', *text)
            if not a.ok:
                if unsure:
                    continue
                r = examine(unlike, a.exc, b.exc)
                if r:
                    fail('different error with an equivalent handler: ' + r, *text)
                continue
            if not (same if not node.contains(AnyN) else eq)(a.value, b.value):
                fail('different value with an equivalent handler', *text)
            if node.contains(AnyN):
                continue
            x, y = attempt(dplain.dump, a.value), attempt(dcustom.dump, a.value) if src.bool() else attempt(dcustom.dump, a.value, typ)
            text = ['dump(%s, **%s) -> %r' % (lit(a.value), dk, x), 'with handlers -> %r' % y]
            if x.ok != y.ok or x.ok and not same(x.value, y.value):
                fail('different dump with an equivalent handler', *text)
        self.delegated(src, case, cfg, g, node)

    def delegated(self, src, case, cfg, g, node):
        """A class loaded as another type"""
        g.prog.add('class W:\n    def __init__(self, v): self.v = v\n    def __eq__(self, o): return type(o) is W and self.v == o.v\n'
                   '    __hash__ = None\n    def __repr__(self): return "W(%r)" % (self.v,)')
        W = g.prog.ns['W']
        l = Loader(**cfg.kwargs())
        l.handlers.append((lambda t: t is W, lambda l, v, t: W(l.load(v, node.typ))))
        wrap = src.draw(5)
        raw, n = gen_raw(src, node, Style(cfg=cfg), odd=False)
        if has_lazy(raw) or single_pass(raw):
            return
        data, steps, kind = [(raw, [], W), ([raw], [('index', 0)], typing.List[W]), ({'k': raw}, [('value', raw)], typing.Dict[str, W]),
                             ([1, raw], [('index', 1)], typing.Tuple[int, W]), ([[raw]], [('index', 0)] * 2, typing.List[typing.List[W]])][wrap]
        a = clean(attempt(Loader(**cfg.kwargs()).load, materialise(raw), node.typ), 'load')
        b = clean(attempt(l.load, materialise(data), kind), 'load')
        text = ['load(%s, %s) -> %r' % (lit(raw), node.expr, a), 'delegated: load(%s, %s) -> %r' % (lit(data), kind, b)]
        case.say(*text)
        if a.ok != b.ok:
            fail('a handler that delegates to another type has not its outcome', *text)
        if a.ok:
            x = b.value
            for _ in steps:
                x = x['k'] if wrap == 2 else x[-1]
            if type(x) is not W or not (same if not node.contains(AnyN) else eq)(x.v, a.value):
                fail('a handler that delegates to another type gives another value', *text)
            return
        got, want = examine(annots, b.exc), steps + examine(annots, a.exc)
        if len(got) != len(want) or any(i != k or not (j is m or same(j, m)) for (i, j), (k, m) in zip(got, want)):
            fail('the path of the error is %s and not %s' % (lit(got), lit(want)), *text)
        r = differ(b.exc, a.exc, len(steps))
        if r:
            fail('a handler that delegates to another type has another error: ' + r, *text)
        x, y = examine(trace, b.exc), examine(trace, a.exc)
        if len(x) != 1 + len(steps) + len(y):
            fail('the trace has %d steps and not %d, of which %d of the handler' % (len(x), 1 + len(steps) + len(y), len(y)), *text)
        if [i[1] for i in x[1 + len(steps):]] != [i[1] for i in y] or not all(i[0] is j[0] or same(i[0], j[0]) for i, j in zip(x[1 + len(steps):], y)):
            fail('the trace does not end with the one of the type', *text)
        # The path that is printed
        p = [i for i in str(b.exc).split('\n') if i.startswith('Path: ')][:1]
        q = [i for i in str(a.exc).split('\n') if i.startswith('Path: ')][:1]
        if wrap in (0, 1, 3, 4) and all(k in ('field', 'index') and v != '' for k, v in want):
            t = q[0][len('Path: '):]
            w = 'Path: ' + ''.join('.[%d]' % i for _, i in steps) + ('' if t == '.' and steps else t)
            if p != [w]:
                fail('the printed path is %r and not %r' % (p, w), *text)
