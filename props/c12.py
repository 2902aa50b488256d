"""uniondebugconflict"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C12'
    quick = 50000
    thorough = 1200000
    rule = ('A random union, possibly nested in a container, loaded with uniondebugconflict. Every alternative is also loaded on its own '
            'with the same option: the union must load exactly when one alternative accepts the data, or the data is a basic value of the '
            'union, and then give what it gives without the option. Non-trivial: at least one alternative accepts and the value is not a '
            'basic one of the union.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = True
        off = Cfg(**dict(cfg.kwargs(), uniondebugconflict=False))
        g = Gen(src, Profile(recursion=False), cfg=cfg)
        node = g.g_union(src.int(1, 3), False, False)
        case.say(g.prog.source())
        style = Style(cast=src.bool(40), maps=src.bool(30), cfg=cfg, extra=src.bool(30))
        for _ in range(3):
            if src.bool(15):
                raw = junk(src, 2)
            else:
                raw, n = gen_raw(src, src.choice(node.members), style)
            if has_lazy(raw):
                continue
            o = clean(do_load(src, cfg, raw, node.typ), 'load(%s, %s)' % (lit(raw), node.expr))
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
            case.say(text)
            exact = node.exact(raw)
            rs = [(m, clean(do_load(src, cfg, raw, m.typ), 'load(%s, %s)' % (lit(raw), m.expr))) for m in node.members]
            oks = [(m, r) for m, r in rs if r.ok]
            case.label('%d alternatives accept' % min(len(oks), 3), 'exact' if exact else 'not exact')
            case.evaluated((g.prog.source(), node.expr, lit(raw)) if oks and not exact else None)
            if exact:
                if not o.ok or not same(o.value, raw):
                    fail('a basic value of the union is not returned as it is', text)
            elif len(oks) == 1:
                if not o.ok:
                    fail('rejected, but only %s accepts the data' % oks[0][0].expr, text)
                if not same(o.value, oks[0][1].value):
                    fail('the result is not what %s gives: %s' % (oks[0][0].expr, lit(oks[0][1].value)), text)
                p = do_load(src, off, raw, node.typ)
                if not p.ok:
                    fail('rejected only without the option', text, repr(p))
            else:
                if o.ok:
                    fail('accepted, but the alternatives that accept the data are %s' % [m.expr for m, _ in oks], text)
                if oks and not isinstance(o.exc, TypedloadTypeError):
                    fail('conflict reported as %s' % type(o.exc).__name__, text)
                if not oks and len(o.exc.exceptions) != len(rs):
                    fail('%d sub-exceptions for %d alternatives' % (len(o.exc.exceptions), len(rs)), text)
            # nested
            data = [raw]
            w = clean(do_load(src, cfg, data, g.prog.eval('List[%s]' % node.expr)), 'load')
            if w.ok != o.ok or w.ok and not same(w.value[0], o.value):
                fail('different outcome inside a list', text, 'load(%s, List[%s]) -> %r' % (lit(data), node.expr, w))
