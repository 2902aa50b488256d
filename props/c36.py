"""An interrupted load() or dump() leaves no trace: fault injection at each line"""
from typing import Any
from tlv.gen import *
from tlv.rt import *
from tlv.lines import Interrupted, Interrupt
from props.c05 import shape
from props.c17 import show


def partnodes(g, nodes):
    """The types in the types, that make sense on their own"""
    out = []
    for n in nodes:
        out += [i for i in n.walk() if not isinstance(i, (RefN, AnyN)) and not any(isinstance(x, RefN) for x in i.walk())]
    return out


class P(Prop):
    id = 'C36'
    quick = 12000
    thorough = 400000
    rule = ('A history of 3-8 load() and dump() calls on a Loader and a Dumper, over 1-3 random types that share parts, valid data and '
            'faults. Half of the calls have a BaseException raised before the nth line of typedload that they execute, n uniform over those '
            'of the call. The exception must come out as it is, with data, values and classes untouched; each call that is not interrupted is '
            'compared with the same call on a new Loader or Dumper. Non-trivial: a call on a type which was interrupted before.')

    def check(self, src, case):
        g = Gen(src, Profile(dumpable=True, isodates=True))
        nodes = [g.type(top=True) for _ in range(src.int(1, 2))]
        parts = partnodes(g, nodes) or [BasicN(int)]
        for _ in range(src.draw(3)):
            nodes.append(src.choice(parts))
        if src.bool(25):
            nodes.append(DictN(g.prog, BasicN(str), src.choice(parts), src.draw(2)))
        case.say(g.prog.source())
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(15)
        dcfg = DCfg(hidedefault=src.bool(), isodates=True)
        sc = {n.typ for n in g.strconstructed}
        extra = {'strconstructed': Dumper().strconstructed | sc} if sc else {}
        loader = make_loader(src, cfg)
        dumper = Dumper(**dcfg.kwargs(), **extra)
        before = [shape(n) for n in nodes]
        used = set()
        for _ in range(src.int(3, 8)):
            node = src.choice(nodes)
            if src.bool(30):
                v = node.value(src)
                args = v, src.choice((node.typ, Any))
                pristine = lambda v=v: v
                f, new = dumper.dump, Dumper(**dcfg.kwargs(), **extra).dump
                text = 'dump(%s, %s, **%s)' % (lit(v), node.expr, dcfg.kwargs())
                fresh = lambda: args
                raw, kind = v, 'dump'
                copy = lit(v)
            else:
                raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(40), maps=src.bool(20), extra=src.bool(20)), odd=src.bool(20))
                if has_lazy(raw):
                    continue
                f, new = loader.load, Loader(**cfg.kwargs()).load
                text = 'load(%s, %s, **%s)' % (lit(raw), node.expr, cfg.kwargs())
                fresh = lambda: (materialise(raw), node.typ)
                kind = 'load'
                copy = None
            again = (kind, id(node)) in used
            count = Interrupted(-1)
            expected = attempt(count.run, new, *fresh())
            if src.bool() and count.count:
                i = Interrupted(src.draw(count.count))
                args = fresh()
                text = 'interrupted before line %d: %s' % (i.at, text)
                try:
                    o = attempt(i.run, f, *args)
                except Interrupt as e:
                    case.say(text)
                    case.label('interrupted ' + kind)
                    used.add((kind, id(node)))
                    if e is not i.fired:
                        fail('another exception comes out', text)
                    if not (same(raw, args[0]) if kind == 'load' else lit(args[0]) == copy):
                        fail('the argument is changed into %s' % lit(args[0]), text)
                    if [shape(n) for n in nodes] != before:
                        fail('the classes are changed', text)
                    case.evaluated()
                    continue
                if i.fired:
                    fail('the interruption was swallowed', text, repr(o))
                # It was faster than with a new one
            else:
                o = attempt(f, *fresh())
            case.say('%s -> %r' % (text, o))
            case.label('again' if again else 'first')
            case.evaluated((g.prog.source(), text, len(used)) if again else None)
            both(expected, o, 'new', text)
            if not o.ok:
                clean(o, text)
                a, b = examine(show, o.exc), examine(show, expected.exc)
                if a[:2] != b[:2] or lit(a[2]) != lit(b[2]) or a[3] != b[3]:
                    fail('different errors', text, 'new: %s' % (b,), 'used: %s' % (a,))
