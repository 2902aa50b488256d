"""The errors nested in the error of a union, or of an enum"""
from tlv.gen import *
from tlv.rt import *


def step(v):
    return '[%d]' % v if isinstance(v, int) else str(v)


def paths(e, prefix=None):
    """The paths that are to be printed: those of the nested exceptions go on from the one they are in"""
    if prefix is None:
        prefix = annots(e)
        yield prefix
    for i in e.exceptions:
        # The first step is the alternative
        p = prefix + [(t[2][0].value, t[2][1]) for t in i.trace[1:] if t[2]]
        yield p
        yield from paths(i, p)


def printed(e):
    """What is wrong in the text, or None"""
    text = str(e)
    got = [i.strip()[6:] for i in text.split('\n') if i.strip().startswith('Path: ')]
    want = []
    for p in paths(e):
        want.append('.' + '.'.join(step(v) for _, v in p))
    if any('\n' in i or 'Path:' in i for i in want) or text.count('Path: ') != len(got):
        return None
    if [i.strip() for i in want] != got:
        return 'printed paths %s instead of %s' % (got, want)
    return None


def everyone(e):
    """All the exceptions in the tree, repeated as they are"""
    yield e
    for i in e.exceptions:
        yield from everyone(i)


def picture(e):
    return (type(e), str(e.args), len(e.trace), [picture(i) for i in e.exceptions])


class P(Prop):
    id = 'C34'
    quick = 40000
    thorough = 1000000
    rule = ('A random union of 2-6 alternatives of any kinds, or an Enum with annotated values, at the root or below containers, fields and '
            'other unions, and data that it refuses. Every alternative is loaded on its own, with another loader: for each one there is '
            'exactly one nested exception, which says which alternative it is about and is in everything else the same (class, message, value, '
            'type, path, and exceptions nested in it). Also when uniondebugconflict finds a conflict: then the nested exceptions are those of '
            'the alternatives that refused. Non-trivial: at least two nested exceptions.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(15)
        g = Gen(src, Profile(recursion=False, maxfields=3), cfg=cfg)
        isenum = src.bool(12)
        if isenum:
            pool = (('int', 1), ('str', 'a'), ('float', 2.5), ('Tuple[int, int]', (1, 2)), ('bool', True), ('Literal["q"]', 'q'), ('int', 7))
            g.prog.add('class E(Enum):\n' + ''.join('    m%d: %s = %r\n' % (i, t, v) for i, (t, v) in enumerate(src.sample(pool, src.int(1, 4)))))
            node = types.SimpleNamespace(typ=g.prog.ns['E'], expr='E')
            hints = typing.get_type_hints(node.typ)
        else:
            node = g.g_union(src.int(1, 3), False, False)
        case.say(g.prog.source())
        style = Style(cast=src.bool(20), maps=src.bool(20), cfg=cfg)
        for _ in range(3):
            k = src.draw(4)
            if k == 0:
                raw = junk(src, 2)
            elif isenum:
                raw = json_like(src, 2)
            else:
                try:
                    m = src.choice(node.members)
                    raw = m.raw(src, m.value(src), style)
                except Collision:
                    raise Discard('collision')
                for _ in range(src.int(1, 3)):
                    raw = corrupt(src, raw)
            if has_lazy(raw):
                continue
            # Where it is
            k = src.draw(7)
            typ, data, path = node.typ, raw, []
            if k == 1:
                typ, data, path = typing.List[typ], [raw], [('index', 0)]
            elif k == 2:
                typ, data, path = typing.Dict[str, typ], {'k': raw}, [('value', raw)]
            elif k == 3:
                typ, data, path = typing.Tuple[typ, int], [raw, 1], [('index', 0)]
            elif k in (4, 5):
                kind = src.choice(('nt', 'dc', 'at', 'td'))
                name = g.prog.fresh('O')
                head = {'nt': 'class %s(NamedTuple):', 'td': 'class %s(TypedDict):', 'dc': '@dataclass\nclass %s:', 'at': '@attr.define\nclass %s:'}[kind]
                g.prog.add('%s\n    x: int\n    f: %s' % (head % name, node.expr))
                typ, data, path = g.prog.ns[name], {'x': 1, 'f': raw}, [('field', 'f')]
                if k == 5:
                    typ, data, path = typing.List[typ], [data], [('index', 0)] + path
            l = make_loader(src, cfg)
            if src.bool(20):
                # It has already been used
                attempt(l.load, materialise(raw), typ)
                attempt(l.load, {}, typ)
            o = clean(attempt(l.load, materialise(data), typ), 'load(%s, %s)' % (lit(data), typ))
            if o.ok:
                case.label('accepted')
                continue
            text = 'load(%s, %s, **%s) -> %r' % (lit(data), typ, cfg.kwargs(), o)
            case.say(text)
            e = o.exc
            all_ = list(everyone(e))
            if len({id(i) for i in all_}) != len(all_):
                fail('the same exception is in the error more than once', text)
            lists = [id(i.exceptions) for i in all_ if i.exceptions]
            if len(set(lists)) != len(lists):
                fail('two exceptions share the list of those nested in them', text)
            if src.bool(30):
                # Another failure of the same loader has its own exceptions
                before = picture(e)
                o2 = attempt(l.load, materialise(src.choice((data, junk(src, 2)))), typ)
                if not o2.ok and isinstance(o2.exc, TypedloadException):
                    if {id(i) for i in everyone(o2.exc)} & {id(i) for i in all_}:
                        fail('an exception of an earlier load is in the error of a later one', text, '%r' % o2)
                if picture(e) != before:
                    fail('the error changed when something else was loaded', text, '%s instead of %s' % (picture(e), before))
            got = examine(annots, e)
            if len(got) != len(path) or any(a[0] != b[0] or not (a[1] is b[1] or same(a[1], b[1])) for a, b in zip(got, path)):
                if isenum or got[:len(path)] != path:
                    fail('the path of the error is %s instead of %s' % (lit(got), path), text)
            r = examine(self.nested, node, hints if isenum else None, cfg, raw, e)
            if isinstance(r, str):
                fail(r, text, 'nested: %s' % [str(i) for i in e.exceptions])
            if all(ord(c) < 256 for c in lit(data)):
                r2 = examine(printed, e)
                if r2:
                    fail(r2, text)
                case.label('printed with nested of nested' if any(i.exceptions for i in e.exceptions) else 'printed')
            case.label('enum' if isenum else 'union', 'conflict' if r[0] else 'refused')
            case.evaluated((g.prog.source(), str(typ), lit(data)) if len(e.exceptions) > 1 else None)

    def nested(self, node, hints, cfg, raw, e):
        kw = cfg.kwargs()
        if hints is None:
            alts = [(m.typ, attempt(Loader(**kw).load, materialise(raw), m.typ)) for m in node.members]
            conflict = sum(o.ok for _, o in alts) > 1
        else:
            alts, conflict = [(t, attempt(Loader(**kw).load, materialise(raw), t)) for t in hints.values()], False
        left = list(e.exceptions)
        for t, o in alts:
            if o.ok and hints is None:
                continue
            if o.ok:
                # A value of that type, which is not the value of a member
                mine = [i for i in left if not annots(i)]
                if not mine:
                    return 'no exception for %s, whose value is not in the enum' % t
                left.remove(mine[0])
                continue
            mine = [i for i in left if annots(i) and annots(i)[0][0] == 'union' and norm_type(annots(i)[0][1]) == norm_type(t)]
            if not mine:
                return 'no nested exception for %s' % t
            first = [i for i in mine[0].trace if i.annotation][0]
            if norm_type(first.type_) != norm_type(t) or not same(first.value, raw):
                return 'the first step for %s is about %s and %s' % (t, lit(first.value), first.type_)
            r = differ(mine[0], o.exc, 1)
            if r:
                return 'the nested exception for %s is not the one of %s alone: %s' % (t, t, r)
            left = [i for i in left if i is not mine[0]]
        if left:
            return '%d more nested exceptions: %s' % (len(left), left)
        return (conflict,)
