"""hidedefault: only the fields that have their default value are left out, and loading gives them back"""
from tlv.gen import *
from tlv.rt import *


def full_and_short(node, v, full, short, path=''):
    """
    Compares the dump with everything and the one without the defaults.
    Returns what is wrong, or None
    """
    if isinstance(node, NewTypeN):
        return full_and_short(node.inner, v, full, short, path)
    if isinstance(node, RefN):
        return full_and_short(node.target, v, full, short, path)
    if isinstance(node, UnionN):
        for m in node.members:
            if m.conforms(v) is None:
                return full_and_short(m, v, full, short, path)
    if isinstance(node, SeqN):
        if len(full) != len(short):
            return '%s: different length' % path
        return first(full_and_short(node.inner, x, a, b, path + '[%d]' % i) for i, (x, a, b) in enumerate(zip(v, full, short)))
    if isinstance(node, TupleN):
        if len(full) != len(short):
            return '%s: different length' % path
        return first(full_and_short(n, x, a, b, path + '[%d]' % i)
                     for i, (n, x, a, b) in enumerate(zip(node.inners, v, full, short)))
    if isinstance(node, DictN):
        if list(full) != list(short):
            return '%s: different keys' % path
        return first(full_and_short(node.val, x, full[k], short[k], path + '[%r]' % k) for x, k in zip(v.values(), full))
    if isinstance(node, ObjN):
        names = {node.dumpname(f, DCfg()): (f, x) for f, x in node.present(v)}
        if set(full) != set(names):
            return '%s: fields %s, but without hidedefault the dump is %s' % (path, sorted(names), lit(full))
        for n, (f, x) in names.items():
            hide = node.kind != 'td' and f.has_default and x == f.default_value()
            if hide and n in short:
                return '%s.%s has the default value %s but is in the dump' % (path, n, lit(x))
            if not hide and n not in short:
                return '%s.%s is %s, not the default, and is missing from the dump %s' % (path, n, lit(x), lit(short))
            if n in short:
                r = full_and_short(f.node, x, full[n], short[n], path + '.' + n)
                if r:
                    return r
        if set(short) - set(names):
            return '%s: unexpected fields in %s' % (path, lit(short))
        return None
    return None if same(full, short) else '%s: %s became %s' % (path, lit(full), lit(short))


class Weird:
    """Not equal to anything, itself included"""
    def __eq__(self, o):
        return False
    __hash__ = None

    def __repr__(self):
        return 'Weird()'


class Picky:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Picky) and self.n == o.n

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'Picky(%d)' % self.n


class P(Prop):
    id = 'C14'
    quick = 50000
    thorough = 1200000
    rule = ('A random class of any kind, most fields having defaults or factories, nested in containers and other classes; values in which '
            'each field is its default, something equal to it, or something else. Both dumps are compared field by field and loaded back. '
            'Objects obtained by load() have the values of their factories modified in place and are dumped again. '
            'Non-trivial: at least one field is hidden.')

    def check(self, src, case):
        if src.bool(8):
            return self.odd(src, case)
        p = Profile(unions='disjoint', dumpable=True, isodates=True, maxfields=6, tags_default=False, eq_always=True)
        p.weights = dict(p.weights, basic=30, obj=30, any=0)
        g = Gen(src, p)
        node = g.obj(src.int(0, 2))
        if src.bool(30):
            node = [lambda: SeqN(g.prog, 'list', node), lambda: DictN(g.prog, BasicN(str), node),
                    lambda: TupleN(g.prog, [node, BasicN(int)])][src.draw(3)]()
        case.say(g.prog.source())
        dumper = None
        for _ in range(src.int(1, 3)):
            v = node.value(src)
            full = do_dump(src, DCfg(hidedefault=False, isodates=True), v)
            if dumper is None or src.bool():
                dumper = Dumper(isodates=True)
            short = attempt(dumper.dump, v)
            text = 'dump(%s) -> %r' % (lit(v), short)
            case.say(text, 'hidedefault=False -> %r' % full)
            if not full.ok or not short.ok:
                fail('a value can not be dumped', text, repr(full))
            case.evaluated((g.prog.source(), lit(v)) if not eq(full.value, short.value) else None)
            case.label('hidden' if not eq(full.value, short.value) else 'nothing hidden')
            r = examine(full_and_short, node, v, full.value, short.value)
            if r:
                fail(r, text, 'hidedefault=False -> %r' % full)
            for o, what in ((full, 'hidedefault=False'), (short, 'hidedefault=True')):
                b = attempt(typedload.load, o.value, node.typ, failonextra=True)
                if not b.ok or not eq(b.value, v):
                    fail('the dump with %s does not give the value back' % what, text, '%r -> %r' % (o, b))
        # Changes to the values made by the factories
        objs = [n for n in node.walk() if isinstance(n, ObjN) and n.kind in ('dc', 'at') and not any(n.required(f) for f in n.fields)]
        objs = [n for n in objs if any(f.factory and isinstance(f.factory_value(), (list, dict, set)) for f in n.fields)]
        if not objs:
            return
        n = src.choice(objs)
        fs = [f for f in n.fields if f.factory and isinstance(f.factory_value(), (list, dict, set))]
        f = src.choice(fs)
        l, d = Loader(), Dumper(isodates=True)
        a = attempt(l.load, {}, n.typ)
        if not a.ok:
            return
        before = attempt(d.dump, a.value)
        x = getattr(a.value, f.name)
        if isinstance(x, list):
            x.append(None)
        elif isinstance(x, dict):
            x['added'] = None
        else:
            x.add('added')
        after = attempt(d.dump, a.value)
        other = attempt(l.load, {}, n.typ)
        text = '%s modified into %s' % (f.name, lit(x))
        case.label('factory')
        case.say(text, '%r -> %r' % (before, after))
        name = n.dumpname(f, DCfg())
        if before.ok and name in before.value:
            fail('%s is the default but it is in the dump' % name, text, repr(before))
        if not after.ok or name not in after.value:
            fail('%s is no longer the default but it is not in the dump' % name, text, repr(after))
        if not other.ok or not same(getattr(other.value, f.name), f.factory_value()):
            fail('the change to one object is seen in a new one', text, repr(other))

    def odd(self, src, case):
        """Values whose equality is unusual"""
        kind = src.choice(('nt', 'dc', 'at'))
        prog = Prog(False)
        prog.ns.update(nan=float('nan'), Weird=Weird, Picky=Picky)
        pool = ('nan', '0.0', '-0.0', '0', 'False', 'None', '1', 'True', '1.0', 'Weird()', 'Picky(1)', 'Picky(2)', "''", '()', '(0,)', '(nan,)', "'a'",
                'float("nan")', 'Decimal("0")', '2 ** 70', 'frozenset()', 'float("inf")', 're.compile("a")', 're.compile("a", re.I)', 're.compile("b")',
                '[1]', '[]', '{}', '{"a": 1}', 'set()', '{1, 2}')
        prog.ns['Decimal'] = decimal.Decimal
        n = src.int(1, 4)
        ds = [src.choice(pool) for _ in range(n)]
        hidden = [kind != 'nt' and form0 and src.bool(25) for form0 in [src.bool(40)] * n]
        head = {'nt': 'class O(NamedTuple):', 'dc': '@dataclass\nclass O:', 'at': '@attr.define\nclass O:'}[kind]
        form = src.draw(3) if kind != 'nt' else 0
        forms = ['%s', 'field(default_factory=lambda: %s)' if kind == 'dc' else 'attr.Factory(lambda: %s)',
                 'field(default=%s)' if kind == 'dc' else 'attr.ib(default=%s)']
        lines = []
        for i, d in enumerate(ds):
            x = forms[max(form, hidden[i]) if kind != 'dc' or d[0] not in '[{WPs' else 1] % d
            if hidden[i]:
                # Not a parameter of the constructor
                x = 'attr.ib(factory=lambda: %s, init=False)' % d if x.startswith('attr.F') else x[:-1] + ', init=False)'
            lines.append('    f%d: Any = %s' % (i, x))
        prog.add('%s\n%s' % (head, '\n'.join(lines)))
        O = prog.ns['O']
        vs = [prog.eval(src.choice(pool) if src.bool() else d) for d in ds]
        default = O()
        if src.bool(30):
            v = O()
        else:
            v = O(*[x for x, h in zip(vs, hidden) if not h])
            for i, h in enumerate(hidden):
                if h:
                    setattr(v, 'f%d' % i, vs[i])
        d = Dumper()
        d.handlers.append((lambda v: isinstance(v, (Weird, Picky, decimal.Decimal)), lambda d, v, t: 'odd'))
        o = attempt(d.dump, v)
        text = 'dump(O(%s)) -> %r' % (', '.join(repr(getattr(v, 'f%d' % i)) for i in range(n)), o)
        case.say(prog.source(), text)
        case.label('odd equality')
        if not o.ok:
            fail('can not be dumped', text)
        want = set()
        for i in range(n):
            a, b = getattr(v, 'f%d' % i), getattr(default, 'f%d' % i)
            if a != b or not a == b:
                want.add('f%d' % i)
        case.evaluated((prog.source(), text) if len(want) < n else None)
        if set(o.value) != want:
            fail('in the dump there are %s and the values that are not the default are %s' % (sorted(o.value), sorted(want)), text)

    def regressions(self):
        import attr

        def takes_self():
            @attr.s
            class T:
                a = attr.ib(type=int)
                b = attr.ib(type=int, default=attr.Factory(lambda self: self.a + 1, takes_self=True))
            assert typedload.dump(T(1)) == {'a': 1}
            assert typedload.dump(T(1, 5)) == {'a': 1, 'b': 5}
            assert typedload.dump(T(1), hidedefault=False) == {'a': 1, 'b': 2}
        yield regression(self, 'attrs-takes-self', takes_self)
