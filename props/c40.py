"""Loaders and dumpers keep nothing of the data"""
import gc
import re
import sys
import weakref
from tlv.gen import *
from tlv.rt import *


def fresh(x, out):
    """A copy that shares no object with anything else; out gets the objects"""
    t = type(x)
    if t is str and len(x) > 1:
        r = ''.join(list(x))
    elif t is int and abs(x) > 300:
        r = x + 1 - 1
    elif t is float:
        r = float(repr(x))
    elif t is bytes and len(x) > 1:
        r = bytes(bytearray(x))
    elif t is list:
        r = [fresh(i, out) for i in x]
    elif t is dict:
        r = {fresh(k, out) if type(k) is not str else k: fresh(v, out) for k, v in x.items()}
    elif t is tuple and x:
        r = tuple([fresh(i, out) for i in x])
    else:
        return x
    out.append(r)
    return r


def referable(x):
    """Weak references to the objects in the value"""
    r = []
    try:
        if obj_fields(x) is not None:
            r.append(weakref.ref(x))
    except TypeError:
        pass
    if isinstance(x, (list, tuple, set, frozenset)):
        for i in x:
            r += referable(i)
    elif isinstance(x, dict):
        for i in x.values():
            r += referable(i)
    return r


class P(Prop):
    id = 'C40'
    quick = 10000
    thorough = 150000
    guided = False
    rule = ('A Loader and a Dumper, and a history of 3-10 loads of random data, valid or with faults, into 1-3 random types, sometimes with '
            'a first round on other data. Every object in the data (strings, large numbers, floats, lists, dictionaries) is a new one, and its '
            'reference count is taken before; when the results and the errors are gone, and with the loader still there, no new reference to '
            'any of them exists, and the objects that were loaded do not exist any more. The same when dumping. Non-trivial: at least 4 '
            'objects in the data.')
    assumptions = ('CPython, where objects have a reference count.', 'The caches of re and ipaddress are not part of typedload.')

    def check(self, src, case):
        cfg = gen_cfg(src)
        cfg.uniondebugconflict = src.bool(10)
        g = Gen(src, Profile(dumpable=True, isodates=True, any_in_union=True), cfg=cfg)
        nodes = [g.type(top=True) if src.bool() else g.obj(src.int(0, 2)) for _ in range(src.int(1, 3))]
        case.say(g.prog.source())
        l = make_loader(src, cfg)
        d = Dumper(hidedefault=src.bool(), isodates=True)
        jobs = []
        for _ in range(src.int(3, 10)):
            node = src.choice(nodes)
            raw, n = gen_raw(src, node, Style(cfg=cfg, cast=src.bool(30), extra=src.bool(20)))
            if not has_lazy(raw):
                jobs.append((node, raw))
        data, objects, refs, text = [], [], [], []
        for node, raw in jobs:
            data.append(fresh(raw, objects))
        re.purge()
        gc.collect()
        # The list, the variable of the loop and the argument are the same each time
        before = [sys.getrefcount(i) for i in objects]
        for (node, raw), x in zip(jobs, data):
            o = clean(attempt(l.load, x, node.typ), 'load')
            text.append('load(%s, %s) -> %r' % (lit(raw), node.expr, o))
            if o.ok:
                refs += [(r, text[-1]) for r in referable(o.value) if r() is not None]
                o2 = attempt(d.dump, o.value)
                text.append('dump(%s) -> %r' % (lit(o.value), o2))
        o = o2 = None
        x = None
        re.purge()
        gc.collect()
        case.say('Loader(**%s)' % cfg.kwargs(), *text)
        after = [sys.getrefcount(i) for i in objects]
        for i, b, a in zip(objects, before, after):
            # Interned strings live forever: pathlib does that
            if b < a < 1 << 30:
                fail('%d references to %s of the data are left' % (a - b, lit(i)), *text)
        case.evaluated((g.prog.source(), lit([r for _, r in jobs])) if len(objects) >= 4 else None)
        # Default values belong to the class, and with Any there can be objects in the data
        known = gc_defaults(nodes)
        everything(data, known)
        known = {id(v) for v in known}
        for r, t in refs:
            if r() is not None and id(r()) not in known:
                fail('%s still exists' % lit(r()), t)


def gc_defaults(nodes):
    r = []
    for n in nodes:
        for i in n.walk():
            if isinstance(i, ObjN):
                for f in i.fields:
                    if f.default:
                        everything(f.default[0], r)
                    v = vars(i.typ).get(f.name)
                    everything(v, r)
                    for a in getattr(i.typ, '__attrs_attrs__', ()):
                        everything(a.default, r)
                    everything(getattr(i.typ, '_field_defaults', {}), r)
                    for a in getattr(i.typ, '__dataclass_fields__', {}).values():
                        everything(a.default, r)
    return r


def everything(v, out):
    out.append(v)
    f = None
    try:
        f = obj_fields(v)
    except Exception:
        pass
    if isinstance(v, type):
        return
    if f is not None:
        for i in f:
            everything(getattr(v, i, None), out)
    elif isinstance(v, dict):
        for k, i in v.items():
            everything(k, out)
            everything(i, out)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for i in v:
            everything(i, out)
