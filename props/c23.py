"""typechecks: the predicates tell the types apart"""
import typing
from tlv.gen import *
from tlv.rt import *
from typedload import typechecks as tc

PREDICATES = [n for n in tc.__all__ if n.startswith('is_')]


def wanted(node):
    if isinstance(node, UnionN):
        r = {'is_union'}
        if len(node.members) == 2 and any(m.basic and m.typ is type(None) for m in node.members):
            r.add('is_optional')
        return r
    if isinstance(node, SeqN):
        return {'is_' + node.kind}
    if isinstance(node, ObjN):
        return {{'nt': 'is_namedtuple', 'dc': 'is_dataclass', 'at': 'is_attrs', 'td': 'is_typeddict'}[node.kind]}
    if isinstance(node, BasicN):
        return {'is_nonetype'} if node.typ is type(None) else set()
    for c, n in ((TupleN, 'is_tuple'), (DictN, 'is_dict'), (EnumN, 'is_enum'), (LiteralN, 'is_literal'), (PatternN, 'is_pattern'),
                 (AnyN, 'is_any'), (NewTypeN, 'is_newtype'), (RefN, 'is_forwardref')):
        if isinstance(node, c):
            return {n}
    return set()


class P(Prop):
    id = 'C23'
    quick = 30000
    thorough = 600000
    rule = ('Every type found in a random type expression, and their values, given to all the predicates of typechecks; uniontypes, '
            'literalvalues and notrequiredtype give back the parts. Non-trivial: the type is not a basic one.')

    def check(self, src, case):
        g = Gen(src, Profile(any_in_union=True, strconstructed=True))
        node = g.type(top=True)
        case.say(g.prog.source())
        preds = {n: getattr(tc, n) for n in PREDICATES}
        for n in node.walk():
            t = n.typ
            what = n.expr
            nr = src.bool(10) and not isinstance(n, RefN)
            want = wanted(n)
            got = set()
            for name, f in preds.items():
                o = attempt(f, t)
                if not o.ok or not isinstance(o.value, bool):
                    fail('%s(%s) -> %r' % (name, what, o))
                if o.value:
                    got.add(name)
            case.evaluated((g.prog.source(), what) if not n.basic else None)
            case.label(*(want or {'none'}))
            case.say('%s: %s' % (what, sorted(got)))
            if got != want:
                fail('predicates for %s: expected %s got %s' % (what, sorted(want), sorted(got)))
            if isinstance(n, UnionN):
                ts = tc.uniontypes(t)
                ms = [m.typ for m in n.members]
                if len(ts) != len(ms) or any(x not in ms for x in ts) or any(x not in ts for x in ms):
                    fail('uniontypes(%s) -> %r' % (what, ts))
            if isinstance(n, LiteralN):
                o = attempt(tc.literalvalues, t)
                if not o.ok or type(o.value) is not set or sorted(map(repr, o.value)) != sorted(map(repr, set(n.values))):
                    fail('literalvalues(%s) -> %r' % (what, o))
            else:
                o = attempt(tc.literalvalues, t)
                if not isinstance(o.exc, ValueError):
                    fail('literalvalues(%s) -> %r' % (what, o))
            if nr:
                x = typing.NotRequired[t]
                if not tc.is_notrequired(x) or tc.notrequiredtype(x) != t:
                    fail('NotRequired[%s] is not recognised' % what)
                bad = [p for p in PREDICATES if p != 'is_notrequired' and preds[p](x)]
                if bad:
                    fail('NotRequired[%s]: %s' % (what, bad))
            # Values are not types
            if src.bool(30):
                v = n.value(src)
                if src.bool(30):
                    # The name of a type, or a piece of one
                    v = src.choice((what, repr(t), str(getattr(t, '__name__', 'Any')), 'Any', 'typing.Any', 'None', 'NoneType', 'Union', (t,), [t], {'t': t}, ...,
                                    NotImplemented, typing.get_args(t), len, lambda: t))
                if hasattr(v, '__dataclass_fields__') or hasattr(v, '__attrs_attrs__') or v is None:
                    continue
                for name, f in preds.items():
                    o = attempt(f, v)
                    if not o.ok or o.value:
                        fail('%s(%s), which is a value -> %r' % (name, lit(v), o))

    def regressions(self):
        def none():
            assert tc.is_nonetype(None) and tc.is_nonetype(type(None)) and not tc.is_nonetype(int)
            o = attempt(typedload.load, None, None)
            assert o.ok and o.value is None, o
            assert not attempt(typedload.load, 1, None).ok
        yield regression(self, 'none-is-a-type', none)
