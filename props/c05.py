"""load() and dump() leave alone the data, the values and the types; nothing mutable is shared"""
import copy
from tlv.gen import *
from tlv.rt import *


def shape(node):
    """What can be observed of the classes"""
    out = []
    for n in node.walk():
        if isinstance(n, ObjN):
            t = n.typ
            out.append((n.name, repr(t.__annotations__), [lit(f.default_value()) for f in n.fields if f.has_default],
                        sorted(map(str, getattr(t, '__required_keys__', ()))), repr(getattr(t, '__match_args__', None))))
        elif isinstance(n, EnumN):
            out.append((n.name, [(m.name, lit(m.value)) for m in n.typ], repr(getattr(n.typ, '__annotations__', None))))
    return out


def through_any(raw_ids, node, out):
    """ids of the containers that Any passes through"""
    keep = set()

    def go(n, x, depth=0):
        if depth > 40:
            return
        if isinstance(n, AnyN):
            keep.update(containers(x))
        elif isinstance(n, NewTypeN):
            go(n.inner, x, depth + 1)
        elif isinstance(n, RefN):
            go(n.target, x, depth + 1)
        elif isinstance(n, UnionN):
            for m in n.members:
                if m.conforms(x) is None:
                    go(m, x, depth + 1)
        elif isinstance(n, (SeqN,)):
            for i in x:
                go(n.inner, i, depth + 1)
        elif isinstance(n, TupleN):
            for m, i in zip(n.inners, x):
                go(m, i, depth + 1)
        elif isinstance(n, DictN):
            for k, v in x.items():
                go(n.val, v, depth + 1)
        elif isinstance(n, ObjN):
            for f, v in n.present(x):
                go(f.node, v, depth + 1)
    go(node, out)
    return keep


class P(Prop):
    id = 'C05'
    quick = 40000
    thorough = 1000000
    rule = ('A random type and data (valid or with faults); the data is compared with a pristine copy after load(), the classes with a '
            'description taken before, and the result must share no mutable container with the data, except below Any. Then the value is '
            'dumped with the same checks. Non-trivial: the data contains a container and something was loaded, or rejected after faults.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        g = Gen(src, Profile(dumpable=True, isodates=True), cfg=cfg)
        node = g.type(top=True)
        case.say(g.prog.source())
        before = shape(node)
        style = Style(cast=src.bool(), seqs=False, maps=src.bool(), cfg=cfg, extra=src.bool(30))
        raw, n = gen_raw(src, node, style, odd=False)
        if has_lazy(raw):
            raise Discard('lazy')
        data = materialise(raw)
        l = make_loader(src, cfg)
        o = attempt(l.load, data, node.typ)
        text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
        case.say(text)
        case.label('loaded' if o.ok else 'rejected')
        case.evaluated((g.prog.source(), node.expr, lit(raw)) if containers(raw) and (o.ok or n) else None)
        if not same(raw, data):
            fail('load() changed the data into %s' % lit(data), text)
        if shape(node) != before:
            fail('load() changed the classes: %s -> %s' % (before, shape(node)), text)
        if not o.ok:
            return
        mine = containers(data)
        got = containers(o.value)
        shared = set(mine) & set(got)
        if shared:
            shared -= through_any(mine, node, o.value)
        if shared:
            fail('the result shares %s with the data' % [lit(mine[i]) for i in shared], text)
        d = DCfg(hidedefault=src.bool(), isodates=True)
        v = o.value
        snapshot = copy.deepcopy(v)
        b = do_dump(src, d, v)
        text = 'dump(%s, **%s) -> %r' % (lit(v), d.kwargs(), b)
        case.say(text)
        if not b.ok:
            # Any can contain anything
            if not node.contains(AnyN):
                fail('value can not be dumped', text)
            return
        if not same(snapshot, v):
            fail('dump() changed the value: it was %s' % lit(snapshot), text)
        if shape(node) != before:
            fail('dump() changed the classes: %s -> %s' % (before, shape(node)), text)
        shared = set(containers(v)) & set(containers(b.value))
        if shared:
            fail('the dump shares %s with the value' % [lit(containers(v)[i]) for i in shared], text)
        # The same value again: nothing of the first dump is recycled
        b2 = do_dump(src, d, v)
        if not same(b.value, b2.value):
            fail('two dumps of the same value differ', text, repr(b2))
        if set(containers(b.value)) & set(containers(b2.value)):
            fail('two dumps share containers', text)

    def regressions(self):
        def typeddict():
            from typing import TypedDict, NotRequired

            class A(TypedDict):
                a: int
                b: NotRequired[str]
            before = dict(A.__annotations__)
            typedload.load({'a': 1}, A)
            assert A.__annotations__ == before, A.__annotations__
        yield regression(self, 'typeddict-annotations', typeddict)
