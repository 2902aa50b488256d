"""load(dump(v)) == v"""
import json
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C03'
    quick = 50000
    thorough = 1200000
    rule = ('A random type whose unions are unambiguous by construction, a random value of it (or one obtained by loading dressed-up data), '
            'random matching dump and load options, optionally a passage through JSON text. Non-trivial: the type contains an object, '
            'a container, or a non basic scalar, and the dump is not empty.')

    def check(self, src, case):
        viajson = src.bool(50)
        d = DCfg(hidedefault=src.bool(60), isodates=src.bool(70), mangle_key='alt' if src.bool(10) else 'name')
        cfg = Cfg(basiccast=not src.bool(40), failonextra=src.bool(50), mangle_key=d.mangle_key)
        g = Gen(src, Profile(unions='disjoint', dumpable=True, jsonkeys=viajson, isodates=d.isodates, strconstructed=True,
                             computed=True), cfg=cfg)
        node = g.type(top=True)
        case.say(g.prog.source())
        sc = {n.typ for n in g.strconstructed}
        lkw = {'strconstructed': Loader().strconstructed | sc} if sc else {}
        dkw = {'strconstructed': Dumper().strconstructed | sc} if sc else {}
        for _ in range(2):
            v = node.value(src)
            if src.bool(25):
                # Start from the data instead
                try:
                    raw = node.raw(src, v, Style(cast=cfg.basiccast, cfg=cfg, maps=src.bool(), seqs=src.bool()))
                except Collision:
                    raise Discard('collision')
                if not has_lazy(raw):
                    o = do_load(src, cfg, raw, node.typ, **lkw)
                    if not o.ok:
                        fail('valid data is rejected', 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o))
                    v = o.value
                    case.label('from data')
            o = do_dump(src, d, v, **dkw)
            what = 'dump(%s, **%s)' % (lit(v), d.kwargs())
            if not o.ok:
                fail('value can not be dumped', '%s -> %r' % (what, o))
            data = o.value
            if viajson:
                try:
                    text = json.dumps(data)
                except (TypeError, ValueError) as e:
                    fail('the dump is not json: %s' % e, '%s -> %s' % (what, lit(data)))
                data = json.loads(text)
                case.label('json')
            back = do_load(src, cfg, data, node.typ, **lkw)
            case.say('%s -> %s' % (what, lit(data)))
            case.evaluated((g.prog.source(), node.expr, lit(v)) if not node.basic and data not in ({}, []) else None)
            if not back.ok:
                fail('the dump can not be loaded', '%s -> %s' % (what, lit(data)), 'load(_, %s, **%s) -> %r' % (node.expr, cfg.kwargs(), back))
            cmp = eq if d.hidedefault or viajson else same
            if not cmp(v, back.value):
                fail('the value changed', '%s -> %s' % (what, lit(data)), 'load(_, %s, **%s) -> %r' % (node.expr, cfg.kwargs(), back))
