"""Enum: the members, their values, and the types of the values"""
from tlv.gen import *
from tlv.rt import *

INTS_ = (0, 1, 2, 3, 4, 8, -1, 10, 100)
STRS_ = ('a', 'b', 'c', '1', '', 'foo', 'A', 'm0')


def gen_enum(src, g):
    """(class, hints, kind, source)"""
    prog = g.prog
    name = prog.fresh('E')
    kind = src.choice(('int', 'str', 'mixed', 'hinted', 'tuple', 'flag', 'intflag', 'missing', 'auto', 'init', 'IntEnum', 'StrEnum', 'mixin', 'object'))
    n = src.size(1, 5) if src.bool(92) else src.int(6, 10)
    pre = src.choice(('m', 'm', 'm', 'M', 'V_', 'Mm'))
    hints = []
    lines = []
    if kind in ('int', 'IntEnum', 'missing'):
        lines = ['%s%d = %r' % (pre, i, src.choice(INTS_) if n < 6 else i) for i in range(n)]
    elif kind in ('str', 'StrEnum', 'mixin'):
        lines = ['%s%d = %r' % (pre, i, src.choice(STRS_)) for i in range(n)]
    elif kind == 'mixed':
        lines = ['%s%d = %s' % (pre, i, lit(src.choice((1, 'a', 2.5, 'b', None, '1', b'x', (1, 2), (), 'zz')))) for i in range(n)]
    elif kind == 'auto':
        lines = ['%s%d = enum.auto()' % (pre, i) for i in range(n)]
    elif kind in ('flag', 'intflag'):
        lines = ['%s%d = %d' % (pre, i, 1 << i) for i in range(n)]
        if src.bool(30):
            lines.append('both = 3')
    elif kind == 'init':
        lines = ['%s%d = (%d, %r)' % (pre, i, src.int(0, 3), src.choice(STRS_)) for i in range(n)]
        if src.bool():
            lines = [l.replace(' =', ': Tuple[int, str] =') for l in lines]
            hints.append(typing.Tuple[int, str])
        lines.append('def __init__(self, a, b):\n        self.a = a\n        self.b = b')
    elif kind == 'tuple':
        h = src.choice(('Tuple[int, int]', 'Tuple[int, ...]', 'tuple[str, int]'))
        hints.append(prog.eval(h))
        for i in range(n):
            v = (src.choice(STRS_), src.int(0, 3)) if 'str' in h else (src.int(0, 3), src.int(0, 2))
            lines.append('%s%d: %s = %s' % (pre, i, h, lit(v)))
    elif kind == 'object':
        # The values are themselves loadable objects
        p = Profile(unions='none', recursion=False, validate=False, computed=False, mangling=False, dumpable=True, isodates=True)
        p.weights = dict(scalar=20, date=10, timedelta=5, seq=10)
        p.kinds = ('tuple', 'frozenset')
        node = g.type(1, hashable=True)
        hints.append(node.typ)
        vs = []
        for i in range(n):
            v = node.value(src)
            if any(eq(v, x) for x in vs) or v != v:
                continue
            vs.append(v)
        for i, v in enumerate(vs):
            prog.ns['_%s_%d' % (name, i)] = v
            prog.lines.append('_%s_%d = %s' % (name, i, lit(v)))
            lines.append('%s%d: %s = _%s_%d' % (pre, i, node.expr, name, i))
    else:        # hinted
        hs = [src.choice(('int', 'str', 'float', 'Tuple[int, int]', 'Optional[int]')) for _ in range(src.int(1, 3))]
        for i in range(n):
            h = src.choice(hs)
            pair = src.int(0, 2), src.int(0, 1)
            v = {'int': src.choice(INTS_), 'str': src.choice(STRS_ + (str(list(pair)), str(pair), '0.5', 'None')),
                 'float': src.choice((0.5, 1.0, 2.0, -1.5)), 'Tuple[int, int]': pair, 'Optional[int]': src.choice((1, None, 2))}[h]
            if prog.eval(h) not in hints:
                hints.append(prog.eval(h))
            lines.append('%s%d: %s = %r' % (pre, i, h, v))
    if kind in ('tuple', 'hinted', 'init') and hints and src.bool(20):
        # The types are on names that are not members
        exprs = []
        for i, l in enumerate(lines):
            if l.startswith(pre) and ': ' in l.split(' = ')[0]:
                a, v = l.split(' = ', 1)
                a, h = a.split(': ', 1)
                lines[i] = '%s = %s' % (a, v)
                if h not in exprs:
                    exprs.append(h)
        names = src.choice((['_value_', 'x1', 'x2', 'x3'], ['x1', 'x2', 'x3']))
        lines[:0] = ['%s: %s' % i for i in zip(names, exprs)]
    base = {'flag': 'enum.Flag', 'intflag': 'enum.IntFlag', 'IntEnum': 'IntEnum', 'StrEnum': 'StrEnum', 'mixin': 'str, Enum'}.get(kind, 'Enum')
    if kind == 'missing':
        lines.append('@classmethod\n    def _missing_(cls, value):\n        if value == "default": return list(cls)[0]\n        if value == "error": raise KeyError("error")\n        return None')
    if kind in ('int', 'str', 'mixin') and src.bool(20):
        lines.append('def method(self): return 1')
    text = 'class %s(%s):\n    ' % (name, base) + '\n    '.join(lines)
    prog.add(text)
    return prog.ns[name], hints, kind


class P(Prop):
    id = 'C26'
    quick = 40000
    thorough = 1000000
    rule = ('Random Enum classes: any values, aliases, IntEnum, StrEnum, mixins, Flag and IntFlag, _missing_, auto(), __init__, annotated '
            'values of many types; data that is the value of a member, its dump, a value of the annotated type, or something else; alone, in '
            'containers, fields, keys and Optional. The class itself, and loading the annotated type on its own, are the reference. '
            'Non-trivial: the data is accepted, or the class has annotations.')
    assumptions = ('More annotated types are tried in the order in which they are declared.',)

    def reference(self, cls, hints, data, kw):
        """(admissible members, why)"""
        try:
            return [cls(data)], 'value'
        except Exception:
            pass
        r = []
        for h in hints:
            o = attempt(Loader(**kw).load, data, h)
            if o.ok:
                try:
                    r.append(cls(o.value))
                except Exception:
                    pass
        return r, 'annotation'

    def check(self, src, case):
        cfg = Cfg(failonextra=src.bool(20), basiccast=not src.bool(30))
        g = Gen(src, Profile(dumpable=True, isodates=True), cfg=cfg)
        cls, hints, kind = gen_enum(src, g)
        kw = cfg.kwargs()
        case.say(g.prog.source())
        members = list(cls)
        if kind in ('flag', 'intflag'):
            # Combinations that nobody used before
            x = src.draw(1 << (len(members) + 1))
            o = attempt(Loader(**kw).load, x, cls)
            w = attempt(cls, x)
            if o.ok != w.ok or o.ok and o.value is not w.value:
                fail('the class gives %r' % (w,), 'load(%r, %s) -> %r' % (x, cls, o))
        if kind in ('flag', 'intflag'):
            members = [cls(i) for i in range(1 << min(3, len([m for m in cls])))]
        places_ = {
            'plain': (lambda x: x, cls, lambda o: o),
            'list': (lambda x: [x], typing.List[cls], lambda o: o[0]),
            'tuple': (lambda x: [0, x], typing.Tuple[int, cls], lambda o: o[1]),
            'dict': (lambda x: {'k': x}, typing.Dict[str, cls], lambda o: o['k']),
            'set': (lambda x: (x,), typing.Set[cls], lambda o: list(o)[0]),
            'optional': (lambda x: x, typing.Optional[cls], lambda o: o),
        }
        n = g.prog.fresh('D')
        g.prog.add('@dataclass\nclass %s:\n    f: %s\n    g: int = 1' % (n, cls.__name__))
        places_['field'] = (lambda x: {'f': x}, g.prog.ns[n], lambda o: o.f)
        l = Loader(**kw)
        for _ in range(3):
            k = src.draw(5)
            if k == 0:
                m = src.choice(members)
                data = m.value if src.bool(80) else m
            elif k == 1:
                data = attempt(Dumper(isodates=True).dump, src.choice(members)).value
            elif k == 2:
                data = src.choice(('default', 'error', 1, 0, 2, 3, '1', 1.0, True, 'a', 'A', 'm0', 'M0', 'V_0', None, (1, 2), [1, 2], [], {}, 7, 64, '', 'x', [1, 'a'], (1, 'a'), 0.5, '0.5'))
            elif k == 3 and src.bool(35):
                data = src.choice(list(cls.__members__))
            elif k == 3:
                m = src.choice(members)
                data = m.value
                data = str(data) if src.bool() else list(data) if isinstance(data, tuple) else [data] if src.bool(20) else \
                    float(data) if isinstance(data, int) else m.name
            else:
                data = junk(src, 1)
            if has_lazy(data):
                continue
            place = src.choice(list(places_))
            dress, typ, undress = places_[place]
            if place == 'optional' and data is None:
                continue
            want, why = self.reference(cls, hints, data, kw)
            o = clean(attempt(l.load, dress(data), typ), 'load(%s, %s)' % (lit(dress(data)), tname(typ)))
            text = 'load(%s, %s, **%s) -> %r' % (lit(dress(data)), tname(typ), kw, o)
            case.say(text)
            case.evaluated((kind, g.prog.source(), place, lit(data)) if want or hints else None)
            case.label(kind, 'accepted as ' + why if want else 'refused')
            if o.ok != bool(want):
                fail('expected %s' % (want or 'a refusal'), text)
            if o.ok:
                got = examine(undress, o.value)
                if got is not want[0]:
                    fail('expected %s' % want[0], text)
            elif place != 'optional':
                if not isinstance(o.exc, TypedloadValueError):
                    fail('unexpected class of exception', text)
                if len(cls.__members__) <= 10 and all(type(m.value) in (int, str, float, bool, type(None)) for m in cls):
                    first = str(o.exc).split('\nPath:')[0]
                    miss = [m.value for m in cls.__members__.values() if repr(m.value) not in first]
                    if miss:
                        fail('the accepted values %s are not listed in the error' % miss, text)
                if not (o.exc.value is data or same(o.exc.value, data)) or o.exc.type_ is not cls:
                    fail('value and type_ of the exception are %s and %s' % (lit(o.exc.value), o.exc.type_), text)
        # Round trip
        m = src.choice(members)
        place = src.choice(('plain', 'list', 'dict', 'set', 'field'))
        dress, typ, undress = places_[place]
        v = {'plain': lambda: m, 'list': lambda: [m], 'dict': lambda: {'k': m}, 'set': lambda: {m}, 'field': lambda: g.prog.ns[n](m)}[place]()
        d = attempt(Dumper(isodates=True, hidedefault=src.bool()).dump, v)
        plainv = attempt(Dumper(isodates=True).dump, m.value)
        text = 'dump(%s) -> %r' % (lit(v), d)
        case.say(text)
        if kind == 'mixed' and type(m.value) is bytes:
            return
        if not d.ok or not plainv.ok:
            fail('can not be dumped', text, 'the value alone: %r' % plainv)
        x = d.value
        x = x if place == 'plain' else x[0] if place in ('list', 'set') else x['k'] if place == 'dict' else x['f']
        if not same(x, plainv.value):
            fail('not the dump of the value of the member: %s' % lit(plainv.value), text)
        want, why = self.reference(cls, hints, x, {})
        if len(want) == 1 or want and all(w is want[0] for w in want):
            if want[0] is m or kind not in ('mixed', 'hinted', 'init', 'object'):
                o = attempt(Loader().load, d.value, typ)
                if not o.ok or examine(undress, o.value) is not m and not isinstance(want[0].value, (bool, float)):
                    fail('the dump does not load back', text, repr(o))


def tname(t):
    return getattr(t, '__name__', None) if isinstance(t, type) and not hasattr(t, '__args__') else str(t).replace('tlv_gen.', '')
