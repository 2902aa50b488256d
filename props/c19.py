"""Recursive types"""
import sys
from tlv.gen import *
from tlv.rt import *
from tlv.twin import alike
from props.c29 import has_bool, lax


def any3(it):
    """True, False or None (unknown)"""
    r = False
    for i in it:
        if i:
            return True
        if i is None:
            r = None
    return r


def uses_ref(node, raw, cfg, depth=0):
    """Whether loading this data needs to resolve a reference"""
    if isinstance(node, RefN):
        return True
    if isinstance(node, NewTypeN):
        return uses_ref(node.inner, raw, cfg)
    if isinstance(node, SeqN):
        return any3(uses_ref(node.inner, i, cfg) for i in raw)
    if isinstance(node, TupleN):
        return any3(uses_ref(n, i, cfg) for n, i in zip(node.inners, raw))
    if isinstance(node, DictN):
        return any3(uses_ref(node.val, i, cfg) for i in is_mapping(raw, cfg).values())
    if isinstance(node, UnionN):
        # an alternative that can not be resolved could still not be the only one
        return None if node.contains(RefN) and raw is not None else False
    if isinstance(node, ObjN):
        fm, _ = node.fieldmap(cfg)
        return any3(uses_ref(fm[k].node, x, cfg) for k, x in is_mapping(raw, cfg).items() if k in fm and fm[k].init)
    return False


def opened(x):
    """What is in the objects"""
    if isinstance(x, list):
        return [opened(i) for i in x]
    return [(x[i] if isinstance(x, dict) else getattr(x, i)) for i in ('a', 'b')]


class P(Prop):
    id = 'C19'
    quick = 20000
    thorough = 1000000
    rule = ('Families of 1-4 classes of any kind that refer to each other by name, inside Optional, List, Dict, Tuple and Union; random '
            'data up to 60 levels deep, valid or with faults; loaded with the specification as oracle, dumped and loaded back; with the names '
            'given in frefs, missing from it, and with frefs=None. Names of enums, NewType, classes and scalars which were found before, and '
            'arbitrary types named with frefs, against the same class without names; unrelated families that use the same names, '
            'one after the other in the same process. Non-trivial: a reference is resolved.')

    def named(self, src, case):
        """Names of anything that has a name, or that frefs gives a name to"""
        cfg = gen_cfg(src)
        g = Gen(src, Profile(unions=src.choice(('any', 'optional')), recursion=False, dumpable=True, isodates=True), cfg=cfg)
        manual = src.bool(40)
        if manual:
            x = g.type(top=True)
            name = src.choice(('Alias', 'x', 'int', 'T1', 'List'))
            kw = {'frefs': {name: x.typ, 'unused': int}}
        else:
            k = src.draw(5)
            x = g.obj(1) if k == 0 else \
                EnumN(g.prog, [('m%d' % i, v, None) for i, v in enumerate(src.sample((1, 2, 'a', 'b'), 2))]) if k == 1 else \
                NewTypeN(g.prog, g.type(2, noany=True)) if k == 2 else \
                BasicN(src.choice((int, str, float, bool))) if k == 3 else \
                ScalarN(src.choice(('IPv4Address', 'UUID', 'Path', 'IPv6Network')))
            name = x.typ.__name__
            kw = {}
        kind = src.choice(('nt', 'dc', 'at', 'td'))
        k = src.draw(5)
        expr = ['List[%s]', 'Optional[%s]', 'Dict[str, %s]', 'Tuple[int, %s]', 'Union[%s, List[%s]]'][k]
        typs = []
        for cls, e in (('X1', "'%s'" % name), ('X2', x.expr)):
            head = {'nt': 'class %s(NamedTuple):', 'td': 'class %s(TypedDict):', 'dc': '@dataclass\nclass %s:', 'at': '@attr.define\nclass %s:'}[kind]
            g.prog.add('%s\n    a: %s\n    b: %s' % (head % cls, 'int' if manual else x.expr, expr.replace('%s', e)))
            typs.append(g.prog.ns[cls])
        case.say(g.prog.source())
        try:
            st = Style(cfg=cfg, cast=src.bool(30))
            a = 1 if manual else x.raw(src, x.value(src), st)
            raw, _ = gen_raw(src, x, st, odd=False)
        except Collision:
            raise Discard('collision')
        if has_lazy(raw):
            raise Discard('lazy')
        data = {'a': a, 'b': [[raw], raw, {'k': raw}, [1, raw], [raw, raw]][k]}
        if src.bool():
            data = [data, data]
            typs = [typing.List[t] for t in typs]
        if has_bool(data) and (x.basic or lax(x)):
            raise Discard('containers of int leave bool alone')
        res = []
        for t, extra in zip(typs, (kw, {})):
            o = clean(attempt(make_loader(src, cfg, **extra).load, materialise(data), t), 'load')
            res.append(o)
        text = ['load(%s, %s, %s**%s) -> %r' % (lit(data), t, 'frefs={%r: %s}, ' % (name, x.expr) if manual else '', cfg.kwargs(), o) for t, o in zip(typs, res)]
        case.say(*text)
        case.label('named', 'loaded' if res[0].ok else 'rejected')
        case.evaluated((g.prog.source(), lit(data)))
        if res[0].ok != res[1].ok:
            fail('using the name of the type makes a difference', *text)
        if res[0].ok and not x.any_union() and k != 4 and not x.contains(AnyN) and not alike(*[opened(o.value) for o in res]):
            if not has_bool(data):
                fail('different values', *text)
        if not res[0].ok and k < 4 and not x.any_union():
            # One more step in the error, for the name
            p, q = [[i for i in examine(annots, o.exc) if i[0] not in ('union', 'forwardref')] for o in res]
            if [i for i, _ in p] != [i for i, _ in q] or lit([v for _, v in p]) != lit([v for _, v in q]):
                fail('different positions: %s and %s' % (p, q), *text)

    def deep(self, src, case):
        """Hundreds of levels"""
        prog = Prog()
        kind = src.choice(('nt', 'dc', 'at', 'td'))
        outer = src.choice(('Optional', 'List', 'Dict', 'Union', 'Tuple'))
        expr = {'Optional': "Optional['Node']", 'List': "List['Node']", 'Dict': "Dict[str, 'Node']", 'Union': "Union[IPv4Address, 'Node', List['Node'], None]",
                'Tuple': "Tuple['Node', ...]"}[outer]
        prog.add({'nt': 'class Node(NamedTuple):', 'td': 'class Node(TypedDict, total=False):', 'dc': '@dataclass\nclass Node:',
                  'at': '@attr.define\nclass Node:'}[kind] + '\n    value: int\n    next: %s%s' % (expr, '' if kind == 'td' else ' = None'))
        node = prog.ns['Node']
        case.say(prog.source())
        n = src.int(30, 250)
        bad = src.bool(40)
        raw = {'value': 'bad' if bad else 0}
        steps = [('field', 'value')]
        for i in range(n):
            x = {'Optional': raw, 'Union': raw, 'List': [raw], 'Dict': {'k': raw}, 'Tuple': [raw]}[outer]
            steps[:0] = [('field', 'next')] + {'List': [('index', 0)], 'Tuple': [('index', 0)], 'Dict': [('value', raw)]}.get(outer, [])
            raw = {'value': i + 1, 'next': x}
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(20000)
        try:
            l = Loader(failonextra=src.bool())
            o = clean(attempt(l.load, raw, node), 'load')
            text = 'load({"value": %d, "next": ...}, Node), %d levels, %s' % (n, n + 1, 'the deepest one is faulty' if bad else 'valid')
            case.say(text)
            case.evaluated((prog.source(), n, bad))
            case.label('deep')
            if o.ok == bad:
                fail('this has to be ' + ('refused' if bad else 'accepted'), text, '' if o.ok else str(o.exc)[:300])
            if bad:
                if outer in ('List', 'Tuple', 'Dict'):
                    a = [i for i in annots(o.exc) if i[0] != 'forwardref']
                    if len(a) != len(steps) or any(i[0] != j[0] or i[0] != 'value' and i[1] != j[1] for i, j in zip(a, steps)):
                        fail('the path has %d steps instead of %d' % (len(a), len(steps)), text)
                return
            v = o.value
            d = attempt(Dumper(hidedefault=src.bool()).dump, v)
            if not d.ok:
                fail('can not be dumped', text, repr(d.exc)[:300])
            x = d.value
            for i in range(n, -1, -1):
                if type(v) is not (dict if kind == 'td' else node):
                    fail('%s found at level %d' % (type(v), n - i), text)
                value, nxt = (v['value'], v.get('next')) if kind == 'td' else (v.value, v.next)
                if type(value) is not int or value != i or x['value'] != i:
                    fail('the value at level %d is %r, dumped as %r' % (n - i, value, x['value']), text)
                if not i:
                    break
                v, x = [{'Optional': lambda y: y, 'Union': lambda y: y, 'List': lambda y: y[0], 'Tuple': lambda y: y[0], 'Dict': lambda y: y['k']}[outer](y)
                        for y in (nxt, x['next'])]
        finally:
            sys.setrecursionlimit(limit)

    def families(self, src, case):
        """Unrelated classes with the same names, in the same process"""
        pool = (('int', 1, 'x', 2), ('str', 'a', [], 'b'), ('List[int]', [1], 3, []), ('Optional[bool]', True, {}, None),
                ('Dict[str, int]', {'k': 1}, 5, {}), ('Tuple[int, str]', [1, 'a'], 'zz', [0, '']))
        fams = []
        outer = src.choice(('Optional', 'List', 'Dict', 'Union'))
        expr = {'Optional': "Optional['Node']", 'List': "List['Node']", 'Dict': "Dict[str, 'Node']", 'Union': "Union['Node', List['Node'], None]"}[outer]
        for i, (t, good, bad, other) in enumerate(src.sample(pool, src.int(2, 3))):
            prog = Prog()
            kind = src.choice(('nt', 'dc', 'at', 'td'))
            head = {'nt': 'class Node(NamedTuple):', 'td': 'class Node(TypedDict, total=False):', 'dc': '@dataclass\nclass Node:',
                    'at': '@attr.define\nclass Node:'}[kind]
            empty = '' if kind == 'td' else ' = None'
            prog.add('%s\n    value: %s%s\n    next: %s%s' % (head, t, '', expr, empty))
            case.say(prog.source())
            fams.append((prog.ns['Node'], kind, good, bad, other))
        kw = src.choice(({}, {}, {}, {'basiccast': False}, {'failonextra': True}))
        kw = dict(kw, basiccast=False)
        if src.bool():
            kw = {}

        def nest(x):
            return {'Optional': x, 'Union': x, 'List': [x, x], 'Dict': {'k': x}}[outer]

        for _ in range(src.int(2, 6)):
            cls, kind, good, bad, other = src.choice(fams)
            faulty = src.bool(25)
            inner = {'value': bad if faulty else src.choice((good, other))}
            for _ in range(src.int(0, 2)):
                inner = {'value': good, 'next': nest(inner)}
            data = {'value': other, 'next': nest(inner)}
            k = src.draw(4)
            o = clean(attempt(typedload.load, data, cls, **kw) if k < 3 else attempt(Loader(**kw).load, data, cls), 'load')
            # No references: the loader finds it in a dictionary of its own
            w = clean(attempt(Loader(frefs={'Node': cls}, **kw).load, data, cls), 'load')
            text = 'load(%s, Node as %s, **%s) -> %r' % (lit(data), kind, kw, o)
            case.say(text)
            case.evaluated((kind, outer, lit(data)))
            case.label('families', 'loaded' if o.ok else 'rejected')
            if o.ok != w.ok or o.ok and not same(o.value, w.value):
                fail('a new loader that knows the name gives another result', text, repr(w))
            if o.ok:
                todo = [o.value]
                while todo:
                    x = todo.pop()
                    if isinstance(x, list) or isinstance(x, dict) and set(x) == {'k'}:
                        todo.extend(x.values() if isinstance(x, dict) else x)
                        continue
                    if x is None:
                        continue
                    if kind != 'td' and type(x) is not cls:
                        fail('a Node of another family', text)
                    todo.append(x.get('next') if kind == 'td' else x.next)

    def check(self, src, case):
        if src.bool(25):
            return self.named(src, case)
        if src.bool(15):
            return self.families(src, case)
        if src.rare(40):
            return self.deep(src, case)
        if src.rare(40):
            return self.unknown(src, case)
        cfg = Cfg(failonextra=src.bool(30), basiccast=not src.bool(30))
        p = Profile(unions='optional', recursion=False, dumpable=True, isodates=True, maxfields=2, enum_none=False, mangling=src.bool(30))
        p.weights = dict(p.weights, basic=60, obj=4, any=0, union=5)
        g = Gen(src, p, cfg=cfg)
        g.prog.maxdepth = 3
        kinds = ('nt', 'dc', 'at', 'td')
        n = src.int(1, 4)
        names = ['R%d' % i for i in range(n)]
        nodes = []
        # R0 is the root: every class can refer to the previous ones directly, and to all of them by name
        external = src.bool(25)
        for i in reversed(range(n)):
            fields = []
            for j in range(src.size(1, 3)):
                inner = None
                if src.bool(70):
                    # back to a class that contains this one, or this one
                    inner = RefN(src.choice(names[:i + 1]) if not external else src.choice(names))
                elif nodes and src.bool(80):
                    inner = nodes[-1]
                if inner is None:
                    node = g.type(1)
                else:
                    k = src.draw(6)
                    node = [lambda: UnionN(g.prog, [inner, BasicN(type(None))], 2),
                            lambda: SeqN(g.prog, 'list', inner, 0, maxlen=2),
                            lambda: DictN(g.prog, BasicN(str), inner, 0, maxlen=2),
                            lambda: SeqN(g.prog, 'tuple', inner, 0, maxlen=2),
                            lambda: SeqN(g.prog, 'list', UnionN(g.prog, [inner, BasicN(int)], 0), 0, maxlen=2),
                            lambda: UnionN(g.prog, [inner, BasicN(int), BasicN(type(None))], 0)][k]()
                f = Field('f%d' % j, node)
                fields.append(f)
            # the chain of classes which makes all the names known
            if nodes and not external:
                fields.append(Field('sub', UnionN(g.prog, [nodes[-1], BasicN(type(None))], 2)))
            if src.bool(40):
                fields.append(Field('v', g.type(1)))
            for f in fields:
                if src.bool(35):
                    g.default_for(f, 'nt')
            kind = src.choice(kinds)
            if kind == 'td':
                for f in fields:
                    f.default = None
                    f.notrequired = src.bool(30)
            fields.sort(key=lambda f: f.has_default)
            nodes.append(ObjN(g.prog, kind, fields, name=names[i], frozen=kind in ('dc', 'at') and src.bool(20)))
        byname = {x.name: x for x in nodes}
        for x in nodes:
            for y in x.walk():
                if isinstance(y, RefN):
                    y.target = byname[y.name]
        root = nodes[-1]
        case.say(g.prog.source())
        frefs = {k: v.typ for k, v in byname.items()}
        wrap = src.draw(3)
        typ = [root.typ, g.prog.eval('List[R0]'), g.prog.eval('Dict[str, R0]')][wrap]

        def dress(x):
            return [x, [x], {'k': x}][wrap]

        def deep(raw):
            """Nests the data in itself"""
            base = raw      # not to double the size at every level
            for _ in range(src.choice((1, 3, 10, 30))):
                fs = [f for f in root.fields if isinstance(f.node, UnionN) and isinstance(f.node.members[0], RefN) and f.node.members[0].name == 'R0']
                fl = [f for f in root.fields if isinstance(f.node, (SeqN, DictN)) and isinstance(f.node.children[-1], RefN) and
                      f.node.children[-1].name == 'R0']
                if not fs and not fl:
                    return raw
                r = dict(base)
                f = src.choice(fs + fl)
                r[f.dataname(cfg.mangle_key) if root.kind in ('dc', 'at') else f.name] = \
                    raw if f in fs else [raw] if isinstance(f.node, SeqN) else {'k': raw}
                raw = r
            return raw
        for _ in range(3):
            try:
                v = root.value(src)
                raw = root.raw(src, v, Style(cfg=cfg, maps=src.bool(15)))
            except Collision:
                raise Discard('collision')
            if isinstance(raw, dict) and src.bool(40):
                raw = deep(raw)
                case.label('deep')
            valid = True
            if src.bool(35) and isinstance(raw, dict):
                raw = corrupt(src, raw, odd=False)
            manual = external or src.bool(20)
            kw = {'frefs': dict(frefs)} if manual else {}
            l = make_loader(src, cfg, **kw)
            if src.bool(30):
                o = clean(attempt(typedload.load, materialise(dress(raw)), typ, **dict(cfg.kwargs(), **kw)), 'load')
            else:
                o = clean(attempt(l.load, materialise(dress(raw)), typ), 'load(%s, %s)' % (lit(raw), root.name))
            text = 'load(%s, %s, %s**%s) -> %r' % (lit(dress(raw)), typ, 'frefs=..., ' if manual else '', cfg.kwargs(), o)
            case.say(text)
            want = root.verdict(raw, cfg)
            needs = root.verdict(raw, cfg) == OK and uses_ref(root, raw, cfg)
            case.evaluated((g.prog.source(), lit(raw)) if needs or needs is None else None)
            case.label('manual' if manual else 'automatic', 'loaded' if o.ok else 'rejected')
            if want == OK and not o.ok or want == BAD and o.ok:
                fail('this has to be %s' % want, text)
            if not o.ok:
                continue
            out = o.value if wrap == 0 else o.value[0] if wrap == 1 else o.value['k']
            r = examine(root.match, raw, out, cfg)
            if r:
                fail(r, text)
            # Again, with the same loader
            o2 = attempt(l.load, materialise(dress(raw)), typ)
            if not o2.ok or not same(o.value, o2.value):
                fail('a second load differs: %r' % o2, text)
            d = do_dump(src, DCfg(hidedefault=src.bool(), isodates=True), out)
            if not d.ok:
                fail('the value can not be dumped: %r' % d, text)
            b = clean(attempt(Loader(**dict(cfg.kwargs(), **kw)).load, d.value, root.typ), 'load')
            if not b.ok or not eq(b.value, out):
                fail('the dump %s does not give the value back: %r' % (lit(d.value), b), text)
            # Not resolved
            x = clean(attempt(Loader(**dict(cfg.kwargs(), frefs=None)).load, materialise(raw), root.typ), 'load with frefs=None')
            text = 'frefs=None: load(%s, %s) -> %r' % (lit(raw), root.name, x)
            if needs is False and want == OK and (not x.ok or not same(x.value, out)):
                fail('no reference is needed', text)
            if needs and x.ok:
                fail('a reference was resolved', text)

    def unknown(self, src, case):
        """Names that are almost the right one"""
        prog = Prog()
        kind = src.choice(('nt', 'dc', 'at', 'td'))
        good = src.choice(('Node', 'int', 'Leaf', 'E'))
        ref = src.choice(('other.%s', '%s ', '%s_', '_%s', '%ss', '%s.%s', 'typing.%s', 'x.y.%s', '%s.x')).replace('%s', good)
        if src.bool(20):
            ref = src.choice((good.lower(), good.upper(), good.swapcase(), good[:-1], good + '1'))
        if ref.strip() == good or not ref or ref == 'in':
            raise Discard('same name')
        k = src.draw(4)
        expr = ("Optional['%s']", "List['%s']", "Dict[str, '%s']", "Tuple[int, '%s']")[k] % ref
        prog.add('class E(Enum):\n    a = 1\nclass Leaf(NamedTuple):\n    value: int')
        prog.add({'nt': 'class Node(NamedTuple):', 'td': 'class Node(TypedDict, total=False):', 'dc': '@dataclass\nclass Node:',
                  'at': '@attr.define\nclass Node:'}[kind] + '\n    value: int\n    leaf: Leaf%s\n    e: E%s\n    next: %s%s' % (
                      ((' = None',) * 2 if kind != 'td' else ('',) * 2) + (expr, '' if kind == 'td' else ' = None')))
        case.say(prog.source())
        x = {'Node': {'value': 2}, 'int': 3, 'Leaf': {'value': 3}, 'E': 1}[good]
        raw = {'value': 1, 'leaf': {'value': 2}, 'e': 1, 'next': (x, [x], {'k': x}, [1, x])[k]}
        l = Loader()
        if src.bool():
            l.load({'value': 1, 'leaf': {'value': 2}, 'e': 1}, prog.ns['Node'])
        o = clean(attempt(l.load, raw, prog.ns['Node']), 'load')
        text = 'load(%s, Node) -> %r' % (lit(raw), o)
        case.say(text)
        case.label('almost')
        case.evaluated((prog.source(), lit(raw)))
        if o.ok:
            fail('nothing has the name %r' % ref, text)
        if ref not in str(o.exc):
            fail('the name %r is not in the error' % ref, text, str(o.exc))

    def regressions(self):
        from typing import List, Optional, NamedTuple, Dict, Union
        from dataclasses import dataclass

        def nested():
            ns = {}
            exec('from typing import *\n'
                 'class T(NamedTuple):\n    i: int\n    o: Optional["T"] = None\n'
                 'class B(NamedTuple):\n    a: List[T]\n    b: List["T"]\n', ns)
            o = attempt(typedload.load, {'a': [{'i': 1}], 'b': [{'i': 1, 'o': {'i': 2}}]}, ns['B'])
            assert o.ok, o
        yield regression(self, 'nested-known', nested)

        def dump():
            ns = {}
            exec('from typing import *\nfrom dataclasses import dataclass\n'
                 'def f():\n'
                 '    @dataclass\n    class T:\n        i: int\n        o: Optional["T"] = None\n'
                 '    return T\n', ns)
            T = ns['f']()
            assert typedload.dump(T(1, T(2))) == {'i': 1, 'o': {'i': 2}}
        yield regression(self, 'dataclass-local-dump', dump)
