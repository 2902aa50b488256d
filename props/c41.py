"""Options mean the same, however they are given"""
import typing
from tlv.gen import *
from tlv.rt import *


class Extra:
    """A class to add to the ones made from a string"""

    def __init__(self, s):
        if not isinstance(s, str):
            raise TypeError('not a string')
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return 'Extra(%r)' % self.s

    def __eq__(self, o):
        return type(o) is Extra and o.s == self.s

    def __hash__(self):
        return hash(self.s)


class ExtraN(Node):
    keyable = dumpkey = True
    typ, expr = Extra, 'Extra'

    def value(self, src):
        return Extra(src.choice(('a', 'b', '')))

    def raw(self, src, v, st):
        return v.s

    def verdict(self, raw, cfg, loose=False):
        return ANY

    def conforms(self, out):
        return None if type(out) is Extra else 'not an Extra'

    def match(self, raw, out, cfg, loose=False):
        return None if type(out) is Extra else 'not an Extra'


class Sub(Loader):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)


class DSub(Dumper):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)


def odd(t):
    raise KeyError('condition')


def tilde(l, v, t):
    return 'tilde %s' % getattr(l, 'flavour', None)


LOADER = dict(basiccast=True, failonextra=False, raiseconditionerrors=True, dictequivalence=True, mangle_key='name', uniondebugconflict=False, pep563=False)
DUMPER = dict(hidedefault=True, isodates=False, raiseconditionerrors=True, mangle_key='name')
BASIC = {int, bool, float, str, type(None)}


def fresh(x):
    """The containers are not shared"""
    return type(x)(x) if isinstance(x, (set, list, dict)) else x


class P(Prop):
    id = 'C41'
    quick = 30000
    thorough = 700000
    rule = ('Random options, any subset of the documented ones (frefs, basictypes, strconstructed and handlers included) and some that do not '
            'exist, given in up to seven ways: as parameters of load() and dump(), of the constructor, together with the default values of '
            'the others, to the constructor of a subclass, as attributes set in random order before the first use, some in a way and some in another, '
            'changing the sets, lists and dictionaries of the object in place. Random types and data: all the ways must have the same outcome '
            'and error, the options must not be changed, and objects made afterwards have the defaults. Non-trivial: at least one option is not the default.')

    def check(self, src, case):
        opts = {}
        for k, vs in (('basiccast', (False,)), ('failonextra', (True,)), ('dictequivalence', (False,)), ('mangle_key', ('alt', 'nope', '')),
                      ('uniondebugconflict', (True,)), ('pep563', (True,)), ('flavour', (1, None, 'x', ()))):
            if src.bool(25):
                opts[k] = src.choice(vs)
        p = Profile(unions=src.choice(('any', 'optional', 'disjoint')), dumpable=True, isodates=True, custom=lambda g, h, k: ExtraN(), custom_often=15)
        p.weights = dict(p.weights, scalar=14)
        g = Gen(src, p, cfg=Cfg())
        g.prog.ns['Extra'] = Extra
        node = g.type(top=True)
        typ = node.typ
        val = raw = None
        try:
            raw, _ = gen_raw(src, node, Style(cfg=Cfg(), cast=src.bool(40), maps=src.bool(15), extra=src.bool(40)))
            val = node.value(src)
        except Collision:
            raise Discard('collision')
        if has_lazy(raw):
            raise Discard('lazy')
        expr = node.expr
        if src.bool(40):
            opts['frefs'] = src.choice((None, {}, {'Later_': typ}, {'Later_': int, 'Other': str}))
        if src.bool(25):
            typ, raw = typing.NamedTuple('W_', [('x', typing.List['Later_']), ('y', str)]), {'x': [raw, raw] if src.bool() else [], 'y': 'y'}
            expr = "NamedTuple('W_', x: List['Later_'], y: str)"
        if src.bool(25):
            opts['basictypes'] = src.choice((BASIC | {bytes}, BASIC - {float}, {int, str}, BASIC | {Extra}, set(), BASIC - {type(None)}))
        if src.bool(50):
            opts['strconstructed'] = Loader().strconstructed | {Extra} if src.bool(70) else src.choice((set(), {Extra}, {pathlib.Path, Extra}))
        adds = []
        if src.bool(25):
            adds = src.sample(((lambda t: t is str, tilde), (odd, tilde), (lambda t: t == typing.List[int], tilde), (lambda t: t is Extra, tilde)), src.int(1, 2))
            if src.bool(60):
                opts['raiseconditionerrors'] = False
        case.say(g.prog.source())
        self.compare(src, case, opts, adds, Loader, Sub, LOADER, lambda f, **kw: attempt(f, materialise(raw), typ, **kw), typedload.load,
                     'load(%s, %s)' % (lit(raw), expr), (g.prog.source(), lit(raw), expr))
        # dump
        opts = {}
        for k, vs in (('hidedefault', (False,)), ('isodates', (True,)), ('mangle_key', ('alt', 'nope', '')), ('flavour', (1, None, 'x', ()))):
            if src.bool(35):
                opts[k] = src.choice(vs)
        if src.bool(25):
            opts['basictypes'] = src.choice((BASIC | {bytes}, BASIC - {float}, {int, str}, BASIC | {Extra}, set(), BASIC | {uuid.UUID}))
        if src.bool(60):
            opts['strconstructed'] = Dumper().strconstructed | {Extra} if src.bool(70) else src.choice((set(), {Extra}, {pathlib.PosixPath, Extra}))
        adds = []
        if src.bool(25):
            adds = src.sample(((lambda v: type(v) is str, tilde), (odd, tilde), (lambda v: type(v) is int, tilde), (lambda v: type(v) is Extra, tilde)), src.int(1, 2))
            if src.bool(60):
                opts['raiseconditionerrors'] = False
        self.compare(src, case, opts, adds, Dumper, DSub, DUMPER, lambda f, **kw: attempt(f, val, **kw), typedload.dump, 'dump(%s)' % lit(val),
                     (g.prog.source(), lit(val)))

    def compare(self, src, case, opts, adds, cls, sub, defaults, call, function, what, key):
        front = src.bool(70)

        def kw():
            r = {k: fresh(v) for k, v in opts.items()}
            if adds:
                # The conditions of the predefined handlers use the options of the object they were made by
                h = cls(**{k: fresh(v) for k, v in opts.items()}).handlers
                r['handlers'] = list(adds) + h if front else h + list(adds)
            return r

        def setall(o, d):
            for k in src.shuffle(list(d)):
                setattr(o, k, d[k])
            return o

        def inplace():
            o = cls()
            for k, v in kw().items():
                if k == 'handlers':
                    if front:
                        o.handlers[0:0] = adds
                    else:
                        o.handlers.extend(adds)
                elif k == 'frefs' and v is not None:
                    o.frefs.update(v)
                elif isinstance(v, set):
                    x = getattr(o, k)
                    x.clear()
                    x.update(v)
                else:
                    setattr(o, k, v)
            return o

        def some():
            d = kw()
            first = {k: d.pop(k) for k in src.sample(list(d), src.draw(len(d) + 1))} if d else {}
            return setall(cls(**first), d)
        method = 'load' if cls is Loader else 'dump'
        ways = {
            'parameters of the constructor': lambda: call(getattr(cls(**kw()), method)),
            'parameters of the function': lambda: call(function, **kw()),
            'the defaults as well': lambda: call(getattr(cls(**dict(defaults, **kw())), method)),
            'parameters of a subclass': lambda: call(getattr(sub(**kw()), method)),
            'attributes': lambda: call(getattr(setall(cls(), kw()), method)),
            'some of them as attributes': lambda: call(getattr(some(), method)),
            'changed in place': lambda: call(getattr(inplace(), method)),
        }
        names = [list(ways)[0]] + src.sample(list(ways)[1:], 4)
        shown = '%s with %s and %d handlers' % (what, {k: sorted(map(str, v)) if isinstance(v, set) else v for k, v in opts.items()}, len(adds))
        first = ways[names[0]]()
        case.say('%s -> %r' % (shown, first))
        case.evaluated(key + (repr(sorted(map(repr, opts.items()))), len(adds)) if opts or adds else None)
        case.label('%s %s' % (method, 'done' if first.ok else 'refused'))
        for n in names[1:]:
            o = ways[n]()
            case.evaluated()
            text = ['%s -> %r' % (shown, first), 'given as %s: %r' % (n, o)]
            if o.ok != first.ok:
                fail('different outcomes', *text)
            if o.ok:
                if not same(o.value, first.value) and lit(o.value) != lit(first.value):
                    fail('different values', *text)
            elif type(o.exc) is not type(first.exc) or isinstance(o.exc, TypedloadException) and examine(lambda: annots(o.exc) == annots(first.exc) or repr(annots(o.exc)) == repr(annots(first.exc))) is not True:
                fail('different errors', *text)
        # The options themselves
        d = kw()
        before = {k: fresh(v) for k, v in d.items()}
        o = cls(**d)
        for k, v in before.items():
            if not eq(getattr(o, k, '(missing)'), v) and getattr(o, k, '(missing)') != v:
                fail('the option %s is %r' % (k, getattr(o, k, '(missing)')), shown)
        call(getattr(o, method))
        for k, v in before.items():
            if k != 'frefs' and d[k] != v:
                fail('the value of the option %s was changed to %r' % (k, d[k]), shown)
        n = cls()
        for k, v in dict(defaults, basictypes=BASIC).items():
            if getattr(n, k) != v:
                fail('a new %s has %s=%r' % (cls.__name__, k, getattr(n, k)), shown)
        if hasattr(n, 'flavour') or Extra in n.strconstructed or len(n.handlers) != len(cls().handlers) or any(h in n.handlers for h in adds) or getattr(n, 'frefs', None):
            fail('a new %s has options of another one' % cls.__name__, shown)
