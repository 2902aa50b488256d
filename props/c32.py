"""Each part of the data is converted once"""
import dataclasses
import attr
from tlv.gen import *
from typing import List, Dict
from typedload.typechecks import is_typeddict
from tlv.rt import *

LOG = []
WHO = []


class Tick:
    """Made from a string; keeps track of all the instances that are made"""

    def __init__(self, s):
        LOG.append(s)
        WHO.append((type(self), s))
        if type(s) is not str:
            raise TypeError('not a string')
        if s.startswith('!'):
            raise ValueError('bad')
        self.s = s

    def __str__(self):
        LOG.append(self.s)
        return self.s

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.s)

    def __eq__(self, o):
        return type(o) is type(self) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


class Tock(Tick):
    """Same, but it has an handler"""


class TickN(Node):
    keyable = dumpkey = True

    def __init__(self, t, counter):
        self.typ = t
        self.expr = t.__name__
        self.counter = counter

    def value(self, src):
        self.counter[0] += 1
        n = len(LOG)
        r = self.typ('n%d' % self.counter[0])
        del LOG[n:]
        return r

    def raw(self, src, v, st):
        return v.s

    def verdict(self, raw, cfg, loose=False):
        return OK if type(raw) is str and not raw.startswith('!') else BAD

    def match(self, raw, out, cfg, loose=False):
        return None if type(out) is self.typ and out.s == raw else 'expected %s(%r) got %s' % (self.expr, raw, lit(out))

    def conforms(self, out):
        return None if type(out) is self.typ else '%s is not a %s' % (lit(out), self.expr)

    def dmatch(self, v, out, d):
        return None if out == v.s else '%r dumped as %s' % (v, lit(out))


def ids(raw, out=None):
    """All the identifiers in the data"""
    out = [] if out is None else out
    if type(raw) is str:
        if raw[:1] in ('n', '!') and raw[1:].isdigit():
            out.append(raw)
    elif isinstance(raw, dict):
        for k, v in raw.items():
            ids(k, out)
            ids(v, out)
    elif isinstance(raw, (list, tuple, set, frozenset)):
        for i in raw:
            ids(i, out)
    return out


def all_positions(raw, path=()):
    yield path
    if isinstance(raw, (list, tuple)):
        for i, v in enumerate(raw):
            yield from all_positions(v, path + (('i', i),))
    elif isinstance(raw, dict):
        for i, (k, v) in enumerate(raw.items()):
            yield path + (('k', i),)
            yield from all_positions(v, path + (('v', i),))


def put(raw, path, new):
    if not path:
        return new
    (w, i), rest = path[0], path[1:]
    if w == 'i':
        l = list(raw)
        l[i] = put(l[i], rest, new)
        return type(raw)(l)
    items = list(raw.items())
    k, v = items[i]
    items[i] = (new, v) if w == 'k' else (k, put(v, rest, new))
    return dict(items)


def get(raw, path):
    for w, i in path:
        raw = raw[i] if w == 'i' else list(raw.items())[i][0 if w == 'k' else 1]
    return raw


class P(Prop):
    id = 'C32'
    quick = 30000
    thorough = 600000
    rule = ('Random types (unions only as Optional, or with alternatives that are basic types) that contain classes made from a string, '
            'which keep a log of the conversions; every string in the data is different. When the load succeeds each string was converted '
            'exactly once, and in a load that fails at most once. Each object is turned into a string exactly once by a dump. '
            'Types nested up to 40 levels, so that work that multiplies at each level shows up. Non-trivial: at least two conversions.')
    assumptions = ('The alternatives of untagged unions, and the hints of an Enum, are tried one after another: the data below them can be '
                   'converted more than once.',)

    def check(self, src, case):
        if src.bool(15):
            return self.deep(src, case)
        if src.bool(12):
            return self.tagged(src, case)
        cfg = gen_cfg(src)
        counter = [0]

        def make(g, hashable, key):
            return TickN(src.choice((Tick, Tock)), counter)
        p = Profile(unions=src.choice(('none', 'optional')), dumpable=True, isodates=True, custom=make, custom_often=85, computed=False,
                    eq_always=True, recursion=src.bool(20), factories=False)
        p.weights = dict(p.weights, scalar=60, basic=6, newtype=4, enum=0, date=0, timedelta=0, any=0, literal=1, pattern=0)
        g = Gen(src, p, cfg=cfg)
        g.prog.ns.update(Tick=Tick, Tock=Tock)
        node = g.type(top=True)
        case.say(g.prog.source())
        try:
            val = node.value(src)
            raw = node.raw(src, val, Style(cfg=cfg, omit_defaults=False))
        except Collision:
            raise Discard('collision')
        all_ = ids(raw)
        if len(set(all_)) != len(all_):
            raise Discard('repeated')       # default values, in more than one place
        faults = src.weighted(((4, 0), (4, 1), (1, 3)))
        for _ in range(faults):
            paths = [i for i in all_positions(raw) if i]
            if not paths:
                break
            path = src.choice(paths)
            old = get(raw, path)
            if type(old) is str and src.bool(70) and old in all_:
                new = '!' + old[1:]
            elif path[-1][0] == 'k':
                new = 'nope'
            else:
                new = src.choice((None, 3, 'zz', [], {}))
            raw = put(raw, path, new)
        v = node.verdict(raw, cfg)
        strs = {Tick} | Loader().strconstructed
        l = Loader(strconstructed=strs, **cfg.kwargs())
        l.handlers.append((lambda t: t is Tock, tock))
        for attempts in (1, 2):              # the second time everything is cached
            del LOG[:]
            o = attempt(l.load, materialise(raw), node.typ)
            log = [str.__str__(i) for i in LOG if type(i) is str]
            text = 'load(%s, %s, %s), time %d -> %r' % (lit(raw), node.expr, cfg.kwargs(), attempts, o)
            clean(o, text)
            if attempts == 1:
                case.say(text)
            seen = {}
            for i in log:
                seen[i] = seen.get(i, 0) + 1
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if len(seen) >= 2 else None)
            case.label('loaded' if o.ok else 'failed')
            if v == OK and not o.ok:
                fail('valid data is rejected', text)
            for i in ids(raw):
                if seen.get(i, 0) > 1:
                    fail('%r was converted %d times' % (i, seen[i]), text)
                if o.ok and not faults and i not in seen:
                    fail('%r was not converted' % i, text)
            if o.ok and v == OK:
                r = examine(node.match, raw, o.value, cfg)
                if r:
                    fail(r, text)
        self.late(src, case, g, node, val)
        # dump
        d = Dumper(isodates=True, hidedefault=src.bool(), strconstructed={Tick} | Dumper().strconstructed)
        d.handlers.append((lambda v: type(v) is Tock, lambda d, v, t: str(v)))
        for attempts in (1, 2):
            del LOG[:]
            o = attempt(d.dump, val, node.typ) if src.bool(30) else attempt(d.dump, val)
            log = list(LOG)
            text = 'dump(%s), time %d -> %r' % (lit(val), attempts, o)
            if attempts == 1:
                case.say(text)
            if not o.ok:
                fail('can not be dumped', text)
            case.evaluated()
            want = ids(o.value)
            if sorted(log) != sorted(want):
                fail('converted to string: %s, and not %s' % (sorted(log), sorted(want)), text)
            r = examine(node.dmatch, val, o.value, DCfg(isodates=True, hidedefault=d.hidedefault))
            if r:
                fail(r, text)

    def late(self, src, case, g, node, val):
        """Fields that are not parameters of the constructor are dumped as well"""
        if src.bool(80):
            return
        kind = src.choice(('dc', 'at'))
        name = g.prog.fresh('L')
        e = node.expr
        default = src.choice(('', 'default=None, '))
        if kind == 'dc':
            g.prog.add('@dataclass\nclass %s:\n    b: int = 3\n    a: %s = field(%sinit=False)' % (name, e, default))
        else:
            g.prog.add('@attr.s\nclass %s:\n    b = attr.ib(type=int, default=3)\n    a = attr.ib(type=%s, %sinit=False)' % (name, e, default))
        x = g.prog.ns[name]()
        x.a = val
        for hide in (True, False):
            d = Dumper(isodates=True, hidedefault=hide, strconstructed={Tick} | Dumper().strconstructed)
            d.handlers.append((lambda v: type(v) is Tock, lambda d, v, t: str(v)))
            del LOG[:]
            o = attempt(d.dump, [x])
            log = list(LOG)
            text = 'dump([%s(a=%s)], hidedefault=%s) -> %r' % (name, lit(val), hide, o)
            case.label('not a parameter')
            if not o.ok:
                fail('can not be dumped', g.prog.source(), text)
            if sorted(log) != sorted(ids(o.value)):
                fail('converted to string: %s, and not %s' % (sorted(log), sorted(ids(o.value))), g.prog.source(), text)

    def tagged(self, src, case):
        """The tag tells which alternative to try first: valid data is converted for that one only"""
        prog = Prog(False)
        prog.ns.update(Tick=Tick, Tock=Tock)
        tag = src.choice(('t', 'type', 'kind', 'z'))
        pool = src.shuffle(('"a"', '"b"', '"c"', '1', '2', '-1', '""', '"d"', '"1"'))
        objs = []
        own = []
        for i in range(src.int(2, 4)):
            kind = src.choice(('nt', 'dc', 'at', 'td'))
            name = prog.fresh('G')
            tags = [pool.pop() for _ in range(src.int(1, 2))]
            own.append(type('X%d' % i, (Tick,), {}))
            prog.ns['X%d' % i] = own[-1]
            fields = ['x: %s' % src.choice(('X%d', 'List[X%d]', 'Dict[str, X%d]')) % i, 'y: Tock', '%s: Literal[%s]' % (tag, ', '.join(tags))]
            prog.add('%s\n    %s' % ({'nt': 'class %s(NamedTuple):', 'td': 'class %s(TypedDict):', 'dc': '@dataclass\nclass %s:',
                                     'at': '@attr.define\nclass %s:'}[kind] % name, '\n    '.join(src.shuffle(fields))))
            objs.append((name, [eval(t) for t in tags], fields[0]))
        expr = src.choice(('Union[%s]' % ', '.join(n for n, _, _ in objs), ' | '.join(n for n, _, _ in objs)))
        typ = prog.eval(expr)
        case.say(prog.source())
        cfg = Cfg(failonextra=src.bool(30), basiccast=not src.bool(30))
        l = Loader(strconstructed={Tick, *own} | Loader().strconstructed, **cfg.kwargs())
        l.handlers.append((lambda t: t is Tock, tock))
        for _ in range(src.int(1, 4)):
            name, tags, x = src.choice(objs)
            n = src.int(1, 3)
            r = {'y': 'n0', tag: src.choice(tags)}
            r['x'] = ['n%d' % i for i in range(1, n)] if 'List' in x else {'k%d' % i: 'n%d' % i for i in range(1, n)} if 'Dict' in x else 'n1'
            r = {k: r[k] for k in src.shuffle(list(r))}
            bad = src.bool(30)
            if bad:
                r['x'] = ['!1'] if 'List' in x else {'k': '!1'} if 'Dict' in x else '!1'
            data, t = src.choice(((r, typ), ([r], List[typ]), ({'k': r}, Dict[str, typ])))
            del LOG[:], WHO[:]
            o = attempt(l.load, data, t)
            text = 'load(%s, %s) -> %r' % (lit(data), expr, o)
            case.say(text)
            case.label('tagged')
            case.evaluated((prog.source(), lit(data), expr))
            if bad:
                # The others are tried as well, once
                if o.ok:
                    fail('invalid data is accepted', text)
                n = sum(1 for w in WHO if w == (prog.ns['X' + x.split('X')[1].rstrip(']')], '!1'))
                if n != 1:
                    fail('the part that is not valid was converted %d times by the right alternative' % n, text)
                continue
            if not o.ok:
                fail('valid data is rejected', text)
            v = o.value if t is typ else o.value[0] if type(data) is list else o.value['k']
            if type(v) is not prog.ns[name] and not (type(v) is dict and is_typeddict(prog.ns[name])):
                fail('loaded as a %s and not as a %s' % (type(v).__name__, name), text)
            if sorted(map(str, LOG)) != sorted(ids(r)):
                fail('converted: %s' % (LOG,), text)

    def deep(self, src, case):
        """Many levels, one leaf"""
        prog = Prog(False)
        counter = [0]
        leaf = src.choice((Tick, Tock))
        typ = leaf
        bad = src.bool(60)
        data = '!1' if bad else 'n1'
        n = src.int(1, 40)
        steps = []
        for i in range(n):
            k = src.choice(('list', 'dict', 'nt', 'dc', 'at', 'td', 'tuple', 'vtuple', 'opt', 'newtype', 'mangled', 'set'))
            steps.append(k)
            if k == 'list':
                typ, data = typing.List[typ], [data]
            elif k == 'set':
                typ, data = typing.List[typ], (data, )
            elif k == 'dict':
                typ, data = typing.Dict[str, typ], {'k': data}
            elif k == 'tuple':
                typ, data = typing.Tuple[int, typ], [3, data]
            elif k == 'vtuple':
                typ, data = typing.Tuple[typ, ...], [data]
            elif k == 'opt':
                typ = typing.Optional[typ]
            elif k == 'newtype':
                typ = typing.NewType('N%d' % i, typ)
            elif k == 'nt':
                typ, data = typing.NamedTuple('T%d' % i, [('a', typ)]), {'a': data}
            elif k == 'td':
                typ, data = typing.TypedDict('T%d' % i, {'a': typ}), {'a': data}
            elif k == 'dc':
                typ, data = dataclasses.make_dataclass('T%d' % i, [('a', typ)]), {'a': data}
            elif k == 'mangled':
                typ, data = dataclasses.make_dataclass('T%d' % i, [('a', typ, dataclasses.field(metadata={'name': 'b'}))]), {'b': data}
            else:
                typ, data = attr.make_class('T%d' % i, {'a': attr.ib(type=typ)}), {'a': data}
        l = Loader(strconstructed={Tick})
        l.handlers.append((lambda t: t is Tock, tock))
        text = 'load of %d levels: %s, %s' % (n, ', '.join(reversed(steps)), data)
        case.say(text)
        del LOG[:]
        o = attempt(l.load, data, typ)
        log = list(LOG)
        case.label('deep')
        case.evaluated((leaf.__name__, bad, tuple(steps)))
        clean(o, text)
        if o.ok == bad:
            fail('%r' % o, text)
        if len(log) != 1:
            fail('the only string was converted %d times' % len(log), text)
        if o.ok:
            del LOG[:]
            d = Dumper(strconstructed={Tick}, mangle_key='name')
            d.handlers.append((lambda v: type(v) is Tock, lambda d, v, t: str(v)))
            o = attempt(d.dump, o.value)
            if not o.ok:
                fail('dump: %r' % o, text)
            if LOG != ['n1']:
                fail('dumped %d times' % len(LOG), text)

    def regressions(self):
        def nested():
            t, data = Tick, '!1'
            for i in range(14):
                t, data = typing.Dict[str, t], {'a': data}
            del LOG[:]
            o = attempt(Loader(strconstructed={Tick}).load, data, t)
            clean(o)
            if o.ok or len(LOG) != 1:
                fail('a leaf 14 dictionaries deep was converted %d times' % len(LOG))
        yield 'failure inside nested dictionaries', nested


def tock(l, v, t):
    try:
        return t(v)
    except (TypeError, ValueError) as e:
        raise TypedloadValueError(str(e), value=v, type_=t)
