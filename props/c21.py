"""Types built from one string"""
from tlv.gen import *
from tlv.rt import *


class P(Prop):
    id = 'C21'
    quick = 50000
    thorough = 1200000
    rule = ('Path, ipaddress types, UUID and user classes added to strconstructed (or replacing it), alone or inside random types; strings '
            'that are valid, nearly valid or random. The constructor and str() of the class are the reference. Non-trivial: the string is '
            'not in the fixed list of valid ones, or the class is nested.')

    def check(self, src, case):
        cfg = Cfg(failonextra=src.bool(20), basiccast=not src.bool(30))
        p = Profile(unions=src.choice(('optional', 'none')), dumpable=True, isodates=True, strconstructed=True, enum_scalars=False)
        p.weights = dict(p.weights, scalar=60, any=0, basic=8)
        g = Gen(src, p, cfg=cfg)
        k = src.draw(3)
        if k:
            leaf = ScalarN(src.choice(list(ScalarN.POOL))) if src.bool(70) else StrConstructedN(g.prog, ''.join(src.sample(StrConstructedN.EXTRA, src.draw(4))))
            if isinstance(leaf, StrConstructedN):
                g.strconstructed.append(leaf)
            kinds = src.draw(7)
            node = [lambda: leaf, lambda: SeqN(g.prog, 'list', leaf, 0), lambda: DictN(g.prog, leaf, BasicN(int)),
                    lambda: DictN(g.prog, BasicN(str), leaf), lambda: SeqN(g.prog, 'frozenset', leaf), lambda: TupleN(g.prog, [leaf, leaf]),
                    lambda: NewTypeN(g.prog, leaf)][kinds]()
        else:
            node = g.type(top=True)
        case.say(g.prog.source())
        sc = {n.typ for n in g.strconstructed}
        only = src.bool(15)
        base = {} if only else Loader().strconstructed
        used = {n.typ for n in node.walk() if isinstance(n, ScalarN)}
        lkw = {'strconstructed': set(base) | sc} if sc or only else {}
        # pathlib.Path() makes a PosixPath
        dkw = {'strconstructed': (Dumper().strconstructed if not only else set()) | sc} if sc or only else {}
        unsupported = only and bool(used - sc)
        for _ in range(3):
            try:
                v = node.value(src)
                raw = node.raw(src, v, Style(cfg=cfg))
            except Collision:
                raise Discard('collision')
            if k and src.bool(70):
                s = src.choice(ScalarN.ODD + leaf.strings + ('a!', 'a?'))
                if src.bool(40):
                    s = mutate_text(src, s)
                if src.bool(10):
                    s = src.choice((1, None, 2.5, True, 3232235777, -1))
                elif src.bool(8):
                    # It is already one, not all the constructors accept that
                    s = leaf.value(src)
                raw = [s, [s], {s: 1} if not unhashable(s) else {}, {'k': s}, [s], [leaf.strings[0], s], s][kinds]
            loaders = Loader(**cfg.kwargs(), **lkw) if src.bool() else None
            if loaders is None:
                o = clean(attempt(typedload.load, materialise(raw), node.typ, **cfg.kwargs(), **lkw), 'load')
            else:
                if src.bool() and not only:
                    loaders = Loader(**cfg.kwargs())
                    for t in sc:
                        loaders.strconstructed.add(t)
                o = clean(attempt(loaders.load, materialise(raw), node.typ), 'load')
            text = 'load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), o)
            case.say(text)
            want = node.verdict(raw, cfg)
            case.label(want)
            if unsupported:
                if k and o.ok and (kinds in (0, 1, 3, 4, 5, 6) or raw) and raw != []:
                    fail('the class is not in strconstructed', text)
                continue
            case.evaluated((node.expr, lit(raw)) if want != ANY else None)
            if want == OK and not o.ok or want == BAD and o.ok:
                fail('this has to be %s, as in the constructor' % want, text)
            if not o.ok:
                continue
            r = examine(node.match, raw, o.value, cfg)
            if r:
                fail(r, text)
            if want != OK:
                continue
            d = attempt(Dumper(isodates=True, **dkw).dump, o.value)
            if not d.ok:
                fail('can not be dumped', text, repr(d))
            r = examine(node.dmatch, o.value, d.value, DCfg(isodates=True))
            if r:
                fail('dump: ' + r, text, repr(d))
            b = attempt(Loader(**cfg.kwargs(), **lkw).load, d.value, node.typ)
            if not b.ok or not eq(b.value, o.value):
                fail('the dump %s does not give the value back: %r' % (lit(d.value), b), text)


def mutate_text(src, s):
    s = list(s)
    for _ in range(src.int(1, 3)):
        k = src.draw(3)
        i = src.draw(len(s) + 1)
        c = src.choice('0123456789abcdef.:/-%{}gz \x00é!?')
        if k == 0:
            s.insert(i, c)
        elif k == 1 and s:
            del s[i % len(s)]
        elif s:
            s[i % len(s)] = c
    return ''.join(s)
