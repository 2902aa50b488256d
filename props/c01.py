"""Whatever load() returns is a value of the requested type"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C01'
    quick = 60000
    thorough = 1500000
    rule = ('A random type, random options, and data that is mostly wrong: encodings with 1-6 faults, encodings of a different type, or '
            'junk including odd Python objects. Non-trivial: load() succeeded on data that is not a faultless encoding, into a type that is '
            'not a bare basic type.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        if src.bool(10):
            cfg.uniondebugconflict = True
        g = Gen(src, Profile(any_in_union=True), cfg=cfg)
        node = g.type(top=True)
        other = g.type(depth=2)
        case.say(g.prog.source())
        style = Style(cast=src.bool(60), seqs=src.bool(), maps=src.bool(), cfg=cfg, extra=src.bool(30))
        for _ in range(3):
            k = src.draw(10)
            if k < 6:
                raw, n = gen_raw(src, node, style)
                if src.bool(8):
                    raw = foreign(src, raw, node)
                    n += 1
                for _ in range(src.draw(3)):
                    raw = corrupt(src, raw)
                    n += 1
            elif k < 8:
                raw, n = gen_raw(src, other, style)
                n += 50
            else:
                raw, n = junk(src, 3), 99
            o = do_load(src, cfg, raw, node.typ)
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
            case.say(text)
            case.label('loaded' if o.ok else 'rejected')
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if o.ok and n and not node.basic else None)
            if o.ok:
                r = examine(node.conforms, o.value)
                if r:
                    fail('the result is not of the requested type: ' + r, text)
