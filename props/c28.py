"""Containers and objects add nothing and lose nothing: loading them is loading their parts"""
import dataclasses
from tlv.gen import *
from tlv.rt import *


def hints(node):
    """{name: type} of the fields"""
    if node.kind == 'at':
        return {a.name: a.type for a in node.typ.__attrs_attrs__}
    if node.kind == 'dc':
        return {f.name: f.type for f in dataclasses.fields(node.typ)}
    r = {}
    for c in reversed(node.typ.__mro__):
        r.update(c.__dict__.get('__annotations__', {}))
    return {k: typing.get_args(t)[0] if typing.get_origin(t) is typing.NotRequired else t for k, t in r.items()}


def inexact(n, x):
    """A bool in the place of an int: not specified inside of containers"""
    if isinstance(n, UnionN):
        return False
    return n.basic and type(x) is not n.typ and isinstance(x, n.typ)


class P(Prop):
    id = 'C28'
    quick = 40000
    thorough = 1000000
    rule = ('A random container or object type (up to six levels below it, with any unions), and data for it of which some parts are '
            'faulty; each part is loaded on its own with the type that the container declares for it. The whole loads when all the parts '
            'do, to a container of the same values; otherwise its error is the one of a faulty part (the first, in sequences), with one more '
            'step in front. '
            'Non-trivial: at least two parts.')
    assumptions = ('bool inside containers of int is not specified.',)

    KEYS = {'int': ('1', 1, 1.0, ' 1', '+1', '2', 2, '02', 2.5, '1_0', 10), 'float': ('1', 1, '1.0', '1e0', 2, '2', 2.0), 'Path': ('a', './a', 'a/', 'b', 'a//', 'a/b', 'a//b'),
            'str': (1, '1', 1.5, '1.5', None, 'None', 'a'), 'date': ('2020-01-01', '20200101', (2020, 1, 1), '2020-01-02'),
            'Tuple[int, ...]': ((1,), ('1',), '1', (1, 2), '12'), 'E': (1, '1', 'x'), 'Optional[int]': (1, '1', None, '01'), 'bool': (1, 0, 'a', None, 'b', ''),
            'timedelta': (1, 1.0, 0.5), 'IPv4Address': ('1.2.3.4', 16909060)}

    def colliding(self, src, case):
        """Different keys that become the same one"""
        prog = Prog()
        prog.add('class E(Enum):\n    a: int = 1\n    b = "x"')
        k = src.choice(list(self.KEYS))
        v, vs = src.choice((('int', (1, '2', 3, 4)), ('List[str]', ([], ['a'], ('b', 'c'))), ('Any', (None, 1, 'x')), ('Optional[str]', (None, 'a', 'b'))))
        keys = src.sample(self.KEYS[k], src.int(2, min(5, len(self.KEYS[k]))))
        data = {i: src.choice(vs) for i in keys}
        t = prog.eval('Dict[%s, %s]' % (k, v))
        if src.bool(20):
            prog.add('class X(NamedTuple):\n    f: Dict[%s, %s]' % (k, v))
        o = clean(attempt(Loader().load, data, t), 'load')
        parts = [(attempt(Loader().load, i, prog.eval(k)), attempt(Loader().load, j, prog.eval(v))) for i, j in data.items()]
        text = 'load(%s, Dict[%s, %s]) -> %r' % (lit(data), k, v, o)
        case.say(text)
        case.label('colliding')
        case.evaluated((k, v, lit(data)))
        good = all(i.ok and j.ok for i, j in parts)
        if o.ok != good:
            fail('the parts are ' + ('good' if good else 'faulty'), text)
        if good:
            want = {}
            for i, j in parts:
                want[i.value] = j.value
            if list(want) != list(o.value) or not same(list(want.values()), list(o.value.values())):
                fail('expected %s: the last one stays' % lit(want), text)

    def check(self, src, case):
        if src.bool(8):
            return self.colliding(src, case)
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(10)
        g = Gen(src, Profile(maxfields=4), cfg=cfg)
        g.p.validate = g.p.computed = False
        node = None
        for _ in range(6):
            n = g.type(depth=src.int(1, 3), top=True)
            if isinstance(n, (SeqN, TupleN, DictN, ObjN)):
                node = n
                break
        if node is None:
            n = g.type(depth=1)
            node = SeqN(g.prog, 'list', n, 0) if not isinstance(n, AnyN) else DictN(g.prog, BasicN(str), BasicN(int))
        if any(isinstance(i, RefN) and i.target is None for i in node.walk()):
            raise Discard('open reference')
        case.say(g.prog.source())
        style = Style(cfg=cfg, cast=src.bool(30), maps=src.bool(20))
        try:
            v = node.value(src)
            raw = node.raw(src, v, style)
        except Collision:
            raise Discard('collision')
        if isinstance(node, (SeqN, TupleN)):
            raw = list(raw)
            if isinstance(node, SeqN) and src.bool(40):
                try:
                    raw = raw + [node.inner.raw(src, node.inner.value(src), style) for _ in range(src.int(1, 3))]
                except Collision:
                    pass
            if src.bool(15):
                raw += lookalikes(src)
            if isinstance(node, SeqN) and raw and src.rare(16):
                # Many
                raw = [raw[src.draw(len(raw))] for _ in range(src.int(10, 120))]
                case.label('long')
            faults = src.weighted([(3, 0), (3, 1), (2, 2)]) if raw else 0
            for _ in range(faults):
                i = src.draw(len(raw))
                raw[i] = corrupt(src, raw[i])
        else:
            raw = dict(raw) if not isinstance(raw, argparse.Namespace) else dict(vars(raw))
            if src.bool(15):
                raw.update(zip(src.shuffle(list(raw)), lookalikes(src)))
            faults = src.weighted([(3, 0), (3, 1), (2, 2)]) if raw else 0
            for _ in range(faults):
                k = src.choice(list(raw))
                raw[k] = corrupt(src, raw[k])
        if has_lazy(raw):
            raise Discard('lazy')
        kw = cfg.kwargs()
        l = make_loader(src, cfg)
        if src.bool(30):
            # The order in which the parts are found must not matter
            whole = attempt(l.load, materialise(raw), node.typ)
            part = lambda x, t: attempt(l.load, materialise(x), t)
        else:
            whole = attempt(Loader(**kw).load, materialise(raw), node.typ)
            part = lambda x, t: attempt(Loader(frefs=dict(l.frefs), **kw).load, materialise(x), t)
        text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, kw, whole)
        case.say(text)
        clean(whole, text)
        if any(isinstance(i, RefN) for i in node.walk()):
            for i in node.walk():
                if isinstance(i, ObjN):
                    l.frefs.setdefault(i.name, i.typ)
        # (step of the path, its value, data of the part, outcome)
        steps = []
        if isinstance(node, SeqN):
            t = typing.get_args(node.typ)[0]
            if any(inexact(node.inner, i) for i in raw):
                return
            steps = [('index', i, x, part(x, t)) for i, x in enumerate(raw)]
        elif isinstance(node, TupleN):
            ts = typing.get_args(node.typ)
            if len(ts) > len(raw) or cfg.failonextra and len(ts) < len(raw):
                return
            steps = [('index', i, x, part(x, t)) for i, (x, t) in enumerate(zip(raw, ts))]
        elif isinstance(node, DictN):
            kt, vt = typing.get_args(node.typ)
            for k, x in raw.items():
                if inexact(node.key, k) or inexact(node.val, x):
                    return
                steps.append(('key', k, k, part(k, kt)))
                steps.append(('value', x, x, part(x, vt)))
        else:
            fm, hidden = node.fieldmap(cfg)
            h = hints(node)
            if any(node.required(f) and f.dataname(cfg.mangle_key if node.kind in ('dc', 'at') else 'none') not in raw for f in node.fields):
                return
            for k, x in raw.items():
                f = fm.get(k)
                if f is None:
                    if cfg.failonextra:
                        return
                    continue
                steps.append(('field', f.name, x, part(x, h[f.name])))
        bad = [s for s in steps if not s[3].ok]
        case.evaluated((g.prog.source(), node.expr, lit(raw)) if len(steps) > 1 else None)
        case.label(getattr(node, 'kind', None) or type(node).__name__, 'rejected' if bad else 'loaded')
        parts = ['%s %s: load(%s) -> %r' % (a, lit(b), lit(x), o) for a, b, x, o in steps]
        case.say(*parts)
        if whole.ok == bool(bad):
            if whole.ok is False and isinstance(node, (SeqN, DictN)) and not all(self.hashable(node, s) for s in steps):
                return
            fail('the parts say otherwise', text, *parts)
        if bad:
            # In which order the fields are loaded is not specified
            rs = [self.error(whole, *i) for i in (bad[:1] if isinstance(node, (SeqN, TupleN)) else bad)]
            if all(rs):
                fail(rs[0], text, *parts)
            return
        vals = [s[3].value for s in steps]
        out = whole.value
        if isinstance(node, (SeqN, TupleN)):
            py = tuple if isinstance(node, TupleN) else node.py
            if not (eq if node.expr.startswith(('Set', 'set', 'Froz', 'froz')) else same)(py(vals), out):
                fail('not made of the parts', text, *parts)
        elif isinstance(node, DictN):
            want = dict(zip(vals[::2], vals[1::2]))
            if not same(want, out):
                fail('not made of the parts', text, *parts)
        else:
            for (_, name, _, o) in steps:
                x = out[name] if node.kind == 'td' else getattr(out, name)
                if not same(x, o.value):
                    fail('field %s is not made of its part' % name, text, *parts)

    @staticmethod
    def error(whole, kind, at, x, o):
        got = examine(annots, whole.exc)
        want = [(kind, at)] + annots(o.exc)
        if len(got) != len(want) or any(a != b or not (c is d or same(c, d)) for (a, c), (b, d) in zip(got, want)):
            return 'not the error of a faulty part: expected %s got %s' % (lit(want), lit(got))
        r = examine(differ, whole.exc, o.exc, 1)
        if r:
            return 'not the error of the faulty part: ' + r
        return None

    @staticmethod
    def hashable(node, s):
        try:
            hash(s[3].value)
            return True
        except TypeError:
            return isinstance(node, DictN) and s[0] == 'value' or isinstance(node, SeqN) and not node.unordered
