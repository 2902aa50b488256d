"""A Dumper has no memory, and annotated_type is only an hint"""
from tlv.gen import *
from tlv.rt import *


def numbers(src, v):
    """Where a float is wanted an int can be used, and where an int is wanted a bool"""
    if type(v) is float:
        return src.choice((v, 1, 0, -3, True)) if src.bool(60) else v
    if type(v) is int:
        return src.choice((True, False)) if src.bool(20) else v
    if type(v) is list:
        return [numbers(src, i) for i in v]
    if type(v) is tuple:
        return tuple(numbers(src, i) for i in v)
    if type(v) is dict:
        return {k: numbers(src, i) for k, i in v.items()}
    if hasattr(v, '_replace') and isinstance(v, tuple):
        return v._replace(**{k: numbers(src, i) for k, i in zip(v._fields, v)})
    return v


class AnnotatedAs(Node):
    """Enum members inside of something"""
    def __init__(self, prog, inner, expr):
        self.inner, self.expr = inner, expr
        self.typ = prog.eval(expr)

    def value(self, src):
        x = self.inner.value(src)
        if isinstance(self.inner, AnnotatedAs):
            return self.typ(x)
        e = self.expr
        return [[x]] if e.startswith('List[List') else [x] if e.startswith(('List', 'list', 'Seq', 'Iter', 'Coll')) else (x, x) if e.startswith('Tuple') else \
            frozenset((x,)) if e.startswith('Froz') else {'k': x} if e.startswith('Dict[str') else {x: 1} if e.startswith('Dict') else x

    def dmatch(self, v, out, d):
        if isinstance(self.inner, AnnotatedAs):
            return self.inner.dmatch(v.x, out['x'], d)

        def go(x):
            if isinstance(x, enum.Enum):
                return x.value
            if isinstance(x, dict):
                return {go(k): go(i) for k, i in x.items()}
            return [go(i) for i in x] if isinstance(x, (list, tuple, frozenset)) else x
        return None if same(go(v), out) else '%s dumped as %s' % (lit(v), lit(out))


class P(Prop):
    id = 'C18'
    quick = 30000
    thorough = 800000
    rule = ('A history of 4-14 dump() calls on two or three Dumper objects with different options, over values of 2-4 random types that '
            'share classes, or where one inherits from another and changes the types of its fields; half of the calls pass the type of the value as annotated_type, or its parts. Each call is compared with the '
            'same call on a new Dumper, without the annotation. Non-trivial: a class is dumped again by the same Dumper.')

    def check(self, src, case):
        g = Gen(src, Profile(dumpable=True, isodates=True, strconstructed=True, any_in_union=True))
        nodes = [g.type(top=True) for _ in range(src.int(1, 3))]
        for n in list(nodes):
            nodes += [i for i in n.walk() if not isinstance(i, RefN)][:4]
        nodes += [SeqN(g.prog, src.choice(('list', 'tuple')), src.choice(nodes)) for _ in range(src.draw(3))]
        if src.bool(30):
            # Other classes, with the same names
            g2 = Gen(src, Profile(dumpable=True, isodates=True))
            nodes += [g2.type(top=True) for _ in range(src.int(1, 2))]
            if not any(isinstance(n, ObjN) for n in nodes[-2:]):
                nodes.append(g2.obj(1))
            case.say(g2.prog.source(), '# and')
        if src.bool(20):
            more = (family if src.bool(30) else hierarchy)(src)
            nodes = src.choice(([], nodes)) + more
            for prog in {id(n.prog): n.prog for m in more for n in m.walk() if isinstance(n, ObjN)}.values():
                case.say(prog.source(), '# and')
        if src.bool(20):
            # The types that annotations can have, besides those that load() makes use of
            g.prog.add('class EL(Enum):\n    a = 1\n    b = "x"\n    c = 1.5')
            e = EnumN.__new__(EnumN)
            e.name, e.expr, e.typ, e.members, e.hints, e.prog, e.base = 'EL', 'EL', g.prog.ns['EL'], [], [], g.prog, 'Enum'
            e.dumpkey = e.keyable = True
            lit_ = src.choice(('Literal[EL.a, EL.b, EL.c]', 'Literal[EL.a, EL.b, EL.c, 1, "x"]', 'Union[EL, int]', 'Optional[EL]', 'Any', 'object', 'EL'))
            for c in src.sample(('List[%s]', 'list[%s]', 'Tuple[%s, ...]', 'FrozenSet[%s]', 'Dict[str, %s]', 'Sequence[%s]', 'Iterable[%s]', '%s', 'List[List[%s]]',
                                 'Tuple[%s, %s]', 'Collection[%s]', 'Dict[%s, int]'), src.int(1, 3)):
                t = c.replace('%s', lit_)
                a = AnnotatedAs(g.prog, e, t)
                name = g.prog.fresh('AE')
                g.prog.add('@dataclass\nclass %s:\n    x: %s' % (name, t))
                nodes += [a, AnnotatedAs(g.prog, a, name)]
        case.say(g.prog.source())
        sc = {n.typ for n in g.strconstructed}
        cfgs = [DCfg(hidedefault=src.bool(), isodates=True, mangle_key=src.choice(('name', 'name', 'alt'))) for _ in range(src.int(2, 3))]
        extra = {'strconstructed': Dumper().strconstructed | sc} if sc else {}

        hand = src.sample((bool, int, str, float), src.int(1, 2)) if src.bool(20) else ()
        if hand:
            nodes += [SeqN(g.prog, src.choice(('list', 'tuple', 'frozenset')), BasicN(t)) for t in hand]

        def new(c):
            d = Dumper(**c.kwargs(), **extra)
            for t in hand:
                d.handlers.insert(0, (lambda v, t=t: type(v) is t, lambda d, v, a: 'dumped %s' % v))
            return d
        dumpers = [new(c) for c in cfgs]
        used = set()
        vals, mixed = [], []
        for _ in range(src.int(4, 14)):
            i = src.draw(len(dumpers))
            if vals and src.bool(25):
                node, v = src.choice(vals)
            else:
                node = src.choice(nodes)
                v = node.value(src)
                if src.bool(12):
                    v = numbers(src, v)
                    mixed.append(v)
                vals.append((node, v))
            kw = {}
            if src.bool():
                kw['annotated_type'] = node.typ
            o = attempt(dumpers[i].dump, v, **kw)
            f = attempt(new(cfgs[i]).dump, v)
            text = 'dumper %d: dump(%s, annotated_type=%s, **%s)' % (i, lit(v), node.expr if kw else 'Any', cfgs[i].kwargs())
            case.say('%s -> %r' % (text, o))
            again = (i, id(node)) in used
            used.add((i, id(node)))
            case.evaluated((g.prog.source(), node.expr, lit(v)) if again else None)
            case.label('annotated' if kw else 'not annotated')
            if not f.ok and not isinstance(f.exc, Exception):
                fail('not dumped', text)
            both(f, o, 'new Dumper', text)
            if f.ok and (hand or any(v is i for i in mixed)):
                pass
            elif f.ok:
                r = examine(node.dmatch, v, o.value, cfgs[i])
                if r:
                    fail(r, text, repr(o))
            elif not f.ok:
                fail('a value can not be dumped', text, repr(f))
