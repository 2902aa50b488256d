"""Any iterable is as good as a list, and it is iterated once"""
from tlv.gen import *
from tlv.rt import *


class Old:
    """Iterable with the old protocol"""
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


class New:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Once:
    """An iterator; complains if iterated again"""
    def __init__(self, items):
        self.items = list(items)
        self.started = False
        self.done = False

    def __iter__(self):
        if self.started:
            raise Violation('iterated twice: %s' % lit(self.items))
        self.started = True
        for i in self.items:
            yield i
        self.done = True


class MyList(list):
    pass


class Sized(New):
    def __len__(self):
        return len(self.items)


class Row(Sized):
    """Not a dictionary, like the rows of sqlite3"""
    def keys(self):
        return ['c%d' % i for i in range(len(self.items))]

    def get(self, k, default=None):
        return default

    def __getitem__(self, i):
        return self.items[int(i[1:]) if isinstance(i, str) else i]


class Falsy(Sized):
    """It has items, and is false"""
    def __bool__(self):
        return False


class NoBool(Sized):
    """Like the arrays of numpy"""
    def __bool__(self):
        raise ValueError('The truth value is ambiguous')


class Broken(Exception):
    pass


MAKERS = {
    'tuple': tuple, 'mylist': MyList, 'deque': collections.deque, 'sized': Sized, 'row': Row, 'userlist': collections.UserList, 'falsy': Falsy, 'nobool': NoBool,
    'values': lambda x: dict(enumerate(x)).values(),
    'gen': lambda x: (i for i in x), 'iter': iter, 'map': lambda x: map(lambda i: i, x), 'old': Old, 'new': New, 'once': Once,
    'zip': lambda x: (i for i, in zip(x)), 'chain': lambda x: itertools.chain(x[:1], x[1:]),
}
SIZED = ('tuple', 'mylist', 'deque', 'sized', 'row', 'userlist', 'values', 'falsy', 'nobool')


def transform(src, node, raw, used, cfg, broken=None):
    """The same data, with other iterables where the type wants one"""
    if isinstance(node, NewTypeN):
        return transform(src, node.inner, raw, used, cfg)
    if isinstance(node, RefN):
        return transform(src, node.target, raw, used, cfg)
    if isinstance(node, UnionN):
        return raw
    if isinstance(node, (SeqN, TupleN)) and type(raw) in (list, tuple):
        if isinstance(node, SeqN):
            items = [transform(src, node.inner, i, used, cfg) for i in raw]
        else:
            items = [transform(src, n, i, used, cfg) for n, i in zip(node.inners, raw)] + list(raw[len(node.inners):])
        if src.bool(30):
            return items
        kind = src.choice(SIZED if isinstance(node, TupleN) else tuple(MAKERS))
        if all(type(i) is str and len(i) == 1 for i in items) and items and src.bool(40):
            kind = 'str'
            r = ''.join(items)
        elif items and all(type(i) is int and 0 <= i < 256 for i in items) and src.bool(40):
            kind = src.choice(('bytes', 'bytearray'))
            r = bytes(items) if kind == 'bytes' else bytearray(items)
        elif items and all(type(i) is int for i in items) and items == list(range(items[0], items[0] + len(items))) and src.bool():
            kind = 'range'
            r = range(items[0], items[0] + len(items))
        else:
            r = MAKERS[kind](items)
        used.append(kind)
        return r
    m = raw if type(raw) is dict else None
    if m is None:
        return raw
    if isinstance(node, DictN):
        return {k: transform(src, node.val, v, used, cfg) for k, v in m.items()}
    if isinstance(node, ObjN):
        fm, _ = node.fieldmap(cfg)
        return {k: transform(src, fm[k].node, v, used, cfg) if k in fm and fm[k].init else v for k, v in m.items()}
    return raw


class P(Prop):
    id = 'C25'
    quick = 40000
    thorough = 1000000
    rule = ('A random type with containers (sometimes with hundreds of items), data for it, valid or with faults, in which some of the lists '
            'are replaced by tuples, generators, iterators, views, deques, strings, bytes, ranges, and user classes with either protocol of '
            'iteration, one of which refuses to be iterated twice; loaded and compared with the lists. Iterables that raise while they '
            'are iterated must be reported by a typedload exception, and dictionaries refused. Non-trivial: at least one was replaced.')
    assumptions = ('Below unions the data is tried more than once, so iterators can not be used there.',)

    def check(self, src, case):
        cfg = gen_cfg(src)
        if src.bool(4):
            return self.long(src, case, cfg)
        p = Profile(unions=src.choice(('none', 'optional')), recursion=src.bool(10), enum_tuples=False)
        p.weights = dict(p.weights, seq=30, tuple=10, obj=12, enum=2)
        g = Gen(src, p, cfg=cfg)
        node = g.type(top=True)
        case.say(g.prog.source())
        raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30)), odd=False)
        if has_lazy(raw):
            raise Discard('lazy')
        used = []
        new = transform(src, node, raw, used, cfg)
        a = clean(do_load(src, cfg, raw, node.typ), 'load(%s, %s)' % (lit(raw), node.expr))
        b = clean(attempt(make_loader(src, cfg).load, new, node.typ), 'load')
        text = ['load(%s, %s, **%s) -> %r' % (lit(raw), node.expr, cfg.kwargs(), a), 'with %s: %r' % (used, b)]
        case.say(*text)
        case.evaluated((g.prog.source(), node.expr, lit(raw), used) if used else None)
        case.label('loaded' if a.ok else 'rejected', *set(used))
        both(a, b, *text)
        if not a.ok:
            if type(a.exc) is not type(b.exc):
                fail('different exceptions', *text)
            x, y = examine(annots, a.exc), examine(annots, b.exc)
            if [i for i, _ in x] != [i for i, _ in y] or [v for i, v in x if i in ('index', 'field', 'key')] != [v for i, v in y if i in ('index', 'field', 'key')]:
                fail('different positions: %s and %s' % (x, y), *text)
        if src.bool(20):
            self.bad(src, case, cfg, g)

    def long(self, src, case, cfg):
        """Many items"""
        g = Gen(src, Profile(unions='none'), cfg=cfg)
        inner = src.choice((BasicN(int), BasicN(str), NewTypeN(g.prog, BasicN(int)), UnionN(g.prog, [BasicN(int), BasicN(str)]),
                            LiteralN([1, 2, 'a']), SeqN(g.prog, 'list', BasicN(int))))
        node = SeqN(g.prog, src.choice(('list', 'tuple')), inner, src.draw(2))
        size = src.choice((10, 100, 257, 1000))
        v = [inner.value(src) for _ in range(7)]
        items = [inner.raw(src, v[i % 7], Style()) for i in range(size)]
        want = [v[i % 7] for i in range(size)]
        o = attempt(Loader(**cfg.kwargs()).load, MAKERS[src.choice(('gen', 'once', 'deque', 'old'))](items), node.typ)
        case.say('load %d items like %s into %s' % (size, lit(items[:7]), node.expr))
        case.label('long')
        case.evaluated((node.expr, size))
        if not o.ok or not same(o.value, node.py(want)):
            fail('wrong result', repr(o)[:500])
        at = src.draw(size)
        bad = [i for i in (None, {}, 'x', 1.5, [None]) if inner.verdict(i, cfg, True) == BAD]
        if not bad:
            return
        items[at] = src.choice(bad)
        o = clean(attempt(Loader(**cfg.kwargs()).load, MAKERS[src.choice(('gen', 'once', 'deque', 'old'))](items), node.typ), 'load')
        if o.ok:
            fail('item %d is %s' % (at, lit(items[at])), repr(o)[:300])
        if annots(o.exc)[0] != ('index', at):
            fail('item %d is %s' % (at, lit(items[at])), repr(o)[:300])

    def bad(self, src, case, cfg, g):
        node = SeqN(g.prog, src.choice(('list', 'tuple', 'set', 'frozenset')), g.type(1, hashable=True), src.draw(2))
        case.say(g.prog.source())
        k = src.draw(3)
        if k == 0:
            n = src.draw(4)
            exc = src.choice((ValueError, TypeError, KeyError, Broken, RuntimeError, AttributeError, IndexError, AssertionError, OSError))
            try:
                items = [node.inner.raw(src, node.inner.value(src), Style(cfg=cfg)) for _ in range(n)]
            except Collision:
                return

            def gen():
                for i in items:
                    yield i
                raise exc('broken')
            data = gen()
            text = 'load(%s followed by %s, %s)' % (lit(items), exc.__name__, node.expr)
        elif k == 1:
            data = src.choice((dict, collections.OrderedDict, collections.Counter))(src.choice(([], [('a', 1)], [(1, 2)])))
            text = 'load(%s, %s)' % (lit(data), node.expr)
        else:
            data = src.choice((None, 1, 1.5, True, object(), len, ...))
            text = 'load(%s, %s)' % (lit(data), node.expr)
        o = attempt(Loader(**cfg.kwargs()).load, data, node.typ)
        case.say('%s -> %r' % (text, o))
        case.evaluated()
        case.label('bad iterable')
        if o.ok:
            fail('expected an error', '%s -> %r' % (text, o))
        clean(o, text)

    def regressions(self):
        def iterators():
            from typing import Dict, List
            o = attempt(Loader().load, {'a': iter([1, 2]), 'b': iter([1, 'x'])}, Dict[str, List[int]])
            assert not o.ok and annots(o.exc)[-1] == ('index', 1), repr(o)
            assert Loader().load({'a': iter([1, 2])}, Dict[str, List[int]]) == {'a': [1, 2]}
        yield regression(self, 'iterators-in-dict', iterators)
