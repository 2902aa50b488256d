"""A Loader and a Dumper can be shared by threads: generated schedules"""
from typing import Any
from tlv.gen import *
from tlv.rt import *
from tlv.lines import Schedule, lines
from props.c17 import show
from props.c36 import partnodes


def overlapping(src, prog):
    """A union whose alternatives share some tags: the order in which they are tried matters"""
    names = []
    for i in range(src.int(2, 4)):
        kind = src.choice(('nt', 'dc', 'at', 'td'))
        head = {'nt': 'class %s(NamedTuple):', 'td': 'class %s(TypedDict, total=False):', 'dc': '@dataclass\nclass %s:',
                'at': '@attr.define\nclass %s:'}[kind]
        name = prog.fresh('T')
        tags = src.sample(('"a"', '"b"', '"c"', '1'), src.int(1, 3))
        end = '' if kind == 'td' else ' = 0'
        prog.add('%s\n    t: Literal[%s]\n    x%d: int%s' % (head % name, ', '.join(tags), i, end))
        names.append(name)
    expr = 'Union[%s]' % ', '.join(names)
    return types.SimpleNamespace(typ=eval(expr, prog.ns), expr=expr)


class ChainN(Node):
    """A list of objects, each the field of the previous one"""
    def __init__(self, prog, name, ref, kind):
        self.typ = prog.ns[name]
        self.expr = name
        self.prog = prog
        self.kind = kind
        self.children = ()

    def walk(self):
        yield self

    def raw(self, src, v, st):
        r = None
        for i in range(src.int(1, 4)):
            r = {'v' + self.expr: i, 'n': r}
        if src.bool(20):
            r['v' + self.expr] = 'wrong'
        return r

    def value(self, src):
        r = None
        for i in range(src.int(1, 4)):
            r = {'v' + self.expr: i, 'n': r} if self.kind == 'td' else self.typ(**{'v' + self.expr: i, 'n': r})
        return r


def referring(src, prog):
    """Classes that refer to themselves by name"""
    nodes = []
    for i in range(src.int(1, 3)):
        kind = src.choice(('nt', 'dc', 'at', 'td'))
        name = prog.fresh('C')
        head = {'nt': 'class %s(NamedTuple):', 'td': 'class %s(TypedDict):', 'dc': '@dataclass\nclass %s:', 'at': '@attr.define\nclass %s:'}[kind]
        prog.add("%s\n    v%s: int\n    n: Optional['%s']" % (head % name, name, name))
        nodes.append(ChainN(prog, name, name, kind))
    return nodes


def handled(src, nodes):
    """Conditions of some handlers"""
    cs = [n.typ for t in nodes for n in t.walk() if isinstance(n, (ObjN, EnumN)) and n.typ is not dict and isinstance(n.typ, type)]
    cs = [c for c in cs if not typing.is_typeddict(c)] + [int, str, list]
    return [lambda v, c=src.choice(cs): type(v) is c for _ in range(src.int(1, 2))]


def handler(src, f, k):
    """With and without the parameter for the type"""
    if src.bool(70):
        return f, lambda d, v: ('custom', k)
    return f, lambda d, v, t: ('custom', k)


class P(Prop):
    id = 'C37'
    quick = 16000
    thorough = 300000
    rule = ('2-3 threads with 1-3 load() or dump() calls each, on one Loader and one Dumper which are new or used before, over 1-2 random types '
            'and their parts, valid data and faults. A generated schedule says after how many lines of typedload each thread is suspended, '
            'and which goes on; the threads are run one at a time accordingly. Each call is compared with the same on a new Loader or Dumper '
            'with nothing else running. Non-trivial: at least two switches of thread, with two threads using the same class or type.')

    def check(self, src, case):
        g = Gen(src, Profile(dumpable=True, isodates=True))
        nodes = [g.type(top=True) for _ in range(src.int(1, 2))]
        parts = partnodes(g, nodes) or [BasicN(int)]
        if src.bool(30):
            nodes.append(src.choice(parts))
        if src.bool(20):
            nodes = referring(src, g.prog)
        hand = overlapping(src, g.prog) if src.bool(15) else None
        case.say(g.prog.source())
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(15)
        dcfg = DCfg(hidedefault=src.bool(), isodates=True)
        sc = {n.typ for n in g.strconstructed}
        extra = {'strconstructed': Dumper().strconstructed | sc} if sc else {}
        loader = make_loader(src, cfg)
        two = [handler(src, f, k) for k, f in enumerate(handled(src, nodes))] if src.bool(15) else []

        def newdumper():
            d = Dumper(**dcfg.kwargs(), **extra)
            for h in two:
                d.handlers.insert(0, h)
            return d
        dumper = newdumper()

        def call():
            """(kind, node, text, function on the shared one, function on a new one)"""
            node = src.choice(nodes)
            if hand and src.bool(70):
                node = hand
                data = {'t': src.choice(('a', 'b', 'c', 1, 2)), 'x1': 2}
                return ('load', node, 'load(%s, %s, **%s)' % (data, node.expr, cfg.kwargs()),
                        lambda: attempt(loader.load, data, node.typ),
                        lambda: attempt(Loader(**cfg.kwargs()).load, data, node.typ))
            if src.bool(30):
                v = node.value(src)
                t = src.choice((node.typ, Any))
                return ('dump', node, 'dump(%s, %s, **%s)' % (lit(v), node.expr, dcfg.kwargs()),
                        lambda: attempt(dumper.dump, v, t),
                        lambda: attempt(newdumper().dump, v))
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(40), maps=src.bool(20), extra=src.bool(20)), odd=src.bool(20))
            if has_lazy(raw):
                raise Discard('lazy')
            text = 'load(%s, %s, **%s)' % (lit(raw), node.expr, cfg.kwargs())
            a, b = materialise(raw), materialise(raw)
            return ('load', node, text, lambda: attempt(loader.load, a, node.typ), lambda: attempt(Loader(**cfg.kwargs()).load, b, node.typ))

        if src.bool(15):
            c = call()
            case.say('before: ' + c[2])
            c[3]()
        threads = [[call() for _ in range(src.int(1, 3))] for _ in range(src.int(2, 3))]
        switches = [(src.choice((0, 1, 2, 3, 5, 8, 13, 21, 34, 60)) + src.draw(3), src.draw(3)) for _ in range(src.int(1, 12))]
        if src.bool(20):
            # All together, almost in step
            a, b = src.draw(4), src.draw(30)
            switches = switches[:1] * (b % 2) + [(a if i != b else a + 1, i % len(threads)) for i in range(60 if a > 1 else 120)]
        expected = [[c[4]() for c in t] for t in threads]
        stop = None
        if src.bool(40):
            # The first is suspended at a line of its own, whatever the number of times that the others are executed
            where = lines().trace(lambda: [c[4]() for c in threads[0]])
            if where:
                stop = src.choice(where), src.choice((0, 0, 0, 1, 2))
                switches = [(-1, 0), (src.choice((-1, -1, -1, 10, 40)), 1)]
        s = Schedule([lambda t=t: [c[3]() for c in t] for t in threads], switches, stop)
        results = s.run()
        shared = [{(k, id(n)) for k, n, *_ in t} for t in threads]
        overlap = any(shared[i] & shared[j] for i in range(len(threads)) for j in range(i))
        case.label('switches: %s' % (s.taken if s.taken < 4 else '4 or more'), 'threads: %d' % len(threads))
        texts = ['thread %d: %s' % (n, c[2]) for n, t in enumerate(threads) for c in t]
        texts.append('schedule [(lines, next)]: %s' % (switches,) + (', the first stops at %s:%d' % (stop[0][0].co_name, stop[0][1]) if stop else ''))
        case.say(*texts)
        if s.stuck:
            case.label('not under control')
        case.evaluated((g.prog.source(), tuple(texts)) if overlap and s.taken > 1 else None)
        for n, (t, exp, res) in enumerate(zip(threads, expected, results)):
            if res is None:
                fail('thread %d did not end' % n, *texts)
            for c, e, o in zip(t, exp, res):
                text = 'thread %d: %s' % (n, c[2])
                both(e, o, 'alone', text + ' -> shared')
                if not o.ok:
                    clean(o, text)
                    a, b = examine(show, o.exc), examine(show, e.exc)
                    if a[:2] != b[:2] or lit(a[2]) != lit(b[2]) or a[3] != b[3]:
                        fail('different errors', text, 'alone: %s' % (b,), 'shared: %s' % (a,), *texts)
