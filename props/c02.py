"""load() agrees with the specification: it accepts, rejects and converts as documented"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C02'
    quick = 60000
    thorough = 1500000
    rule = ('A random type expression (classes of every supported kind, containers, unions, literals, enums, scalars), random loader '
            'options and data that is a valid encoding with 0-3 faults or junk. Non-trivial: the type is not a bare basic type and the '
            'specification decides the outcome (accept or reject).')

    def check(self, src, case):
        cfg = gen_cfg(src)
        g = Gen(src, Profile(), cfg=cfg)
        node = g.type(top=True)
        case.say(g.prog.source())
        style = Style(cast=src.bool(), seqs=src.bool(), maps=src.bool(), cfg=cfg, extra=src.bool(30))
        for _ in range(src.int(1, 3)):
            raw, faults = gen_raw(src, node, style)
            if src.bool(8):
                raw = foreign(src, raw, node)
                faults += 1
            v = node.verdict(raw, cfg)
            o = clean(do_load(src, cfg, raw, node.typ), 'load(%s, %s, **%s)' % (lit(raw), node.expr, cfg.kwargs()))
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
            case.say(text)
            case.label('verdict ' + v, 'loaded' if o.ok else 'rejected', 'faults %d' % min(faults, 4))
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if v != ANY and not node.basic else None)
            if v == OK and not o.ok:
                fail('valid data is rejected', text)
            if v == BAD and o.ok:
                fail('invalid data is accepted', text)
            if o.ok:
                r = node.match(raw, o.value, cfg) if v == OK else node.conforms(o.value)
                if r:
                    fail('wrong value: ' + r, text)
