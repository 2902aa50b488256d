"""A Loader has no memory: any load gives what a new Loader would give"""
from tlv.gen import *
from tlv.rt import *


def show(e):
    """What is observable of an error"""
    return type(e), str(e), annots(e), len(e.exceptions)


def tree(e):
    """The identities of the nested exceptions"""
    return [(id(i), tree(i)) for i in e.exceptions]


class P(Prop):
    id = 'C17'
    quick = 25000
    thorough = 600000
    rule = ('A history of 4-14 load() calls on two or three Loader objects with different options, over 2-4 random types that share parts '
            '(also the key and value types of each other; different classes with the same name; classes that change the type of an inherited field), valid data and faults; each call is compared with the same call on a new Loader, '
            'values and errors alike, and the errors stay as they were. Non-trivial: a type is used at least twice on the same Loader.')

    def check(self, src, case):
        namesakes = src.bool(30)
        g = Gen(src, Profile(dumpable=src.bool(), strconstructed=False, recursion=not namesakes))
        nodes = [g.type(top=True) for _ in range(src.int(1, 3))]
        if namesakes:
            # Other classes, with the same names
            g2 = Gen(src, Profile(recursion=False))
            others = [g2.type(top=True) for _ in range(src.int(1, 2))]
            case.say(g2.prog.source(), '# and')
        # parts of the types, on their own
        parts = []
        for n in nodes:
            parts += [i for i in n.walk() if not isinstance(i, (RefN, AnyN)) and
                      not any(isinstance(x, RefN) for x in i.walk())]
        parts = parts or [BasicN(int)]
        for _ in range(src.draw(4)):
            p = src.choice(parts)
            k = src.draw(6)
            if k == 0:
                p = SeqN(g.prog, 'list', p, src.draw(2))
            elif k == 1 and p.hashable and p.keyable:
                p = DictN(g.prog, p, src.choice(parts), src.draw(2))
            elif k == 2:
                p = DictN(g.prog, BasicN(str), p, src.draw(2))
            elif k == 3 and not isinstance(p, UnionN):
                p = g.union([p, src.choice([i for i in parts if not isinstance(i, UnionN)])])
            elif k == 4:
                p = TupleN(g.prog, [p, src.choice(parts)], src.draw(2))
            nodes.append(p)
        if namesakes:
            nodes += others
        more = []
        if src.bool(20):
            more = src.choice((family, hierarchy, enums))(src)
            nodes = src.choice(([], nodes)) + more
            for prog in {id(n.prog): n.prog for m in more for n in m.walk() if isinstance(n, (ObjN, EnumN))}.values():
                case.say(prog.source(), '# and')
        case.say(g.prog.source())
        cfgs = []
        for _ in range(src.int(2, 3)):
            c = gen_cfg(src)
            c.uniondebugconflict = src.bool(15)
            cfgs.append(c)
        loaders = [make_loader(src, c) for c in cfgs]
        used = set()
        errors = []
        for _ in range(src.int(4, 14)):
            i = src.draw(len(loaders))
            cfg = cfgs[i]
            node = src.choice(nodes)
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(40), maps=src.bool(20), extra=src.bool(20)), odd=src.bool(30))
            if has_lazy(raw):
                continue
            o = attempt(loaders[i].load, materialise(raw), node.typ)
            f = attempt(Loader(**cfg.kwargs()).load, materialise(raw), node.typ)
            text = 'loader %d: load(%s, %s, **%s)' % (i, lit(raw), node.expr, cfg.kwargs())
            case.say('%s -> %r' % (text, o))
            case.label('loaded' if o.ok else 'rejected')
            again = (i, id(node)) in used
            used.add((i, id(node)))
            case.evaluated((g.prog.source(), node.expr, lit(raw), len(used)) if again else None)
            both(f, o, 'new Loader', text)
            if any(node is m for m in more):
                # What is kept outside of the Loader makes both wrong
                v = node.verdict(raw, cfg)
                if v == OK and not o.ok or v == BAD and o.ok:
                    fail('this has to be %s' % v, text, repr(o))
                r = examine(node.match, raw, o.value, cfg) if v == OK else None
                if r:
                    fail(r, text, repr(o))
            if not o.ok:
                clean(o, text)
                a, b = examine(show, o.exc), examine(show, f.exc)
                if o.exc is not None and len(errors) < 4:
                    errors.append((o.exc, a, tree(o.exc), text))
                if a[:2] != b[:2] or lit(a[2]) != lit(b[2]) or a[3] != b[3]:
                    fail('different errors', text, 'new Loader: %s' % (a,), 'used Loader: %s' % (b,))

        for e, a, t, text in errors:
            # What was raised before is not changed by what comes after
            if examine(show, e)[:2] != a[:2] or lit(examine(show, e)[2]) != lit(a[2]) or examine(tree, e) != t:
                fail('an exception changed after it was raised', text, 'before: %s' % (a,), 'now: %s' % (examine(show, e),))

    def regressions(self):
        def keys():
            from typing import Dict
            l = Loader(basiccast=False)
            assert l.load({1: 'a'}, Dict[int, str]) == {1: 'a'}
            l = Loader()
            for _ in range(2):
                assert l.load({'1': 2}, Dict[int, str]) == {1: '2'}
                o = attempt(l.load, {'1': '2'}, Dict[datetime.time, int])
                assert not o.ok
        yield regression(self, 'dict-key-loader', keys)
