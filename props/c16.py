"""The kinds of objects are interchangeable"""
from tlv.gen import *
from tlv.rt import *

KINDS = ('nt', 'dc', 'at', 'td')


def get(kind, v, n):
    return v[n] if kind == 'td' else getattr(v, n)


class P(Prop):
    id = 'C16'
    quick = 40000
    thorough = 1000000
    assumptions = ('Missing fields of attrs classes are reported by their constructor, with another class of exception.',)
    rule = ('One list of fields (types, required or with a default) declared as NamedTuple, dataclass, attrs and TypedDict (where the '
            'default becomes NotRequired), and the same data, valid or with faults, given to all of them, alone or nested. '
            'Non-trivial: all kinds were compared on data of at least two fields.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.mangle_key = 'name'
        cfg.uniondebugconflict = src.bool(10)
        g = Gen(src, Profile(unions=src.choice(('any', 'disjoint')), recursion=False, dumpable=True, isodates=True, eq_always=True,
                             maxfields=3), cfg=cfg)
        names = src.sample([i for i in PLAIN_NAMES + ODD_NAMES if not keyword(i) and i not in ('index', 'count')], src.size(1, 5))
        if src.rare(150):
            names += src.sample(['w%d' % i for i in range(40)], src.int(15, 40))
        fields = []
        for n in names:
            f = Field(n, g.type(src.int(0, 2) if len(names) < 10 else 0))
            if src.bool(35):
                g.default_for(f, 'nt')
            fields.append(f)
        fields.sort(key=lambda f: f.has_default)
        nodes = {}
        for k in KINDS:
            fs = [Field(f.name, f.node, f.default if k != 'td' else None, notrequired=k == 'td' and f.has_default) for f in fields]
            opt = {}
            if k == 'at':
                for f in fs:
                    f.takes_self = src.bool(25)
            if k in ('dc', 'at') and src.bool(20):
                opt['frozen'] = True
            if k == 'at':
                opt['style'] = src.choice(('define', 's'))
                opt['auto'] = src.bool()
            if k in ('dc', 'td', 'at') and len(fs) > 1 and src.bool(15):
                opt['inherit'] = src.int(1, len(fs) - 1)
                opt['partial'] = src.bool()
            if k == 'nt' and src.bool(15):
                opt['subclass'] = True
            nodes[k] = ObjN(g.prog, k, fs, **opt)
        case.say(g.prog.source())
        wrap = src.draw(4)

        def dress(x, t):
            return [(x, t.typ), ([x], g.prog.eval('List[%s]' % t.expr)), ({'k': x}, g.prog.eval('Dict[str, %s]' % t.expr)),
                    (x, g.prog.eval('Union[None, %s]' % t.expr))][wrap]

        def unwrap(x):
            return x if wrap in (0, 3) else x[0] if wrap == 1 else x['k']
        loaders = {k: make_loader(src, cfg) for k in KINDS}
        shared = make_loader(src, cfg)
        for _ in range(3):
            one = nodes['dc']
            raw, n = gen_raw(src, one, Style(cfg=cfg, cast=src.bool(30), maps=src.bool(25), extra=src.bool(30)), odd=src.bool(30))
            if single_pass(raw) or raw is None and wrap == 3 or has_lazy(raw) and one.contains(AnyN):
                continue
            res = {}
            for k in KINDS:
                data, t = dress(raw, nodes[k])
                l = shared if src.bool(20) else loaders[k]
                res[k] = clean(attempt(l.load, materialise(data), t), 'load(%s, %s)' % (lit(data), nodes[k].expr))
            text = ['load(%s, _, **%s)' % (lit(raw), cfg.kwargs())] + \
                ['%s -> %r' % (k, o) for k, o in res.items()]
            case.say(*text)
            m = is_mapping(raw, cfg)
            case.evaluated((g.prog.source(), lit(raw)) if m is not None and len(m) > 1 else None)
            ref = res['dc']
            alike = True
            case.label('loaded' if ref.ok else 'rejected')
            for k in KINDS:
                o = res[k]
                if o.ok != ref.ok:
                    fail('dataclass and %s differ' % k, *text)
                if not o.ok:
                    if k == 'at' and m is not None and any(f.name not in m for f in fields if not f.has_default):
                        # attrs: the constructor is the one reporting the missing fields
                        continue
                    if type(o.exc) is not type(ref.exc):
                        fail('dataclass and %s raise different exceptions' % k, *text)
                    a, b = examine(annots, o.exc), examine(annots, ref.exc)
                    if [x for x, _ in a] != [x for x, _ in b] or [v for x, v in a if x in ('field', 'index')] != [v for x, v in b if x in ('field', 'index')]:
                        fail('dataclass and %s report different positions: %s %s' % (k, a, b), *text)
                    continue
                v, w = unwrap(o.value), unwrap(ref.value)
                if type(v) is not (dict if k == 'td' else nodes[k].typ):
                    fail('%s gives a %s' % (k, type(v)), *text)
                for f in fields:
                    if k == 'td' and (m is None or f.name not in m):
                        if f.name in v:
                            fail('key %s was not in the data' % f.name, *text)
                        continue
                    if f.node.any_union() and m is not None and f.name in m:
                        # The order of the alternatives is free
                        x = get(k, v, f.name)
                        r = examine(f.node.match, m[f.name], x, cfg) if f.node.verdict(m[f.name], cfg) == OK else examine(f.node.conforms, x)
                        alike = alike and same(x, get('dc', w, f.name))
                        if r:
                            fail('field %s of %s: %s' % (f.name, k, r), *text)
                    elif not (same if not f.node.contains(AnyN) else eq)(get(k, v, f.name), get('dc', w, f.name)):
                        fail('field %s differs in dataclass and %s' % (f.name, k), *text)
            if not ref.ok or not alike or any(i.contains(AnyN) for i in nodes.values()):
                continue
            for hide in (True, False):
                out = {k: do_dump(src, DCfg(hidedefault=hide, isodates=True), res[k].value) for k in KINDS}
                text2 = ['hidedefault=%s' % hide] + ['%s: %s -> %r' % (k, lit(res[k].value), o) for k, o in out.items()]
                if any(not o.ok for o in out.values()):
                    fail('a value can not be dumped', *text2)
                for k in ('nt', 'at'):
                    if not same(out[k].value, out['dc'].value):
                        fail('the dumps of dataclass and %s differ' % k, *text2)
                td, dc = unwrap(out['td'].value), unwrap(out['dc'].value)
                if m is not None:
                    for f in fields:
                        if f.name in m and f.name in dc and not same(td.get(f.name), dc[f.name]):
                            fail('the dumps of dataclass and TypedDict differ', *text2)
