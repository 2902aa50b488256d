"""dump() gives plain data, with the documented content"""
import collections
import json
from tlv.gen import *
from tlv.rt import *


class MyList(list):
    pass


class MyDict(dict):
    pass


def dress(src, v):
    """The same value, in subclasses of the containers"""
    if type(v) is list:
        return src.choice((list, MyList))(dress(src, i) for i in v)
    if type(v) is dict:
        c = src.choice((dict, MyDict, collections.OrderedDict, None))
        items = [(k, dress(src, i)) for k, i in v.items()]
        if c is None:
            r = collections.defaultdict(int)
            r.update(items)
            return r
        return c(items)
    return v


class P(Prop):
    id = 'C04'
    quick = 50000
    thorough = 1200000
    rule = ('A random type with any unions, one to three random values of it, random dump options, sometimes containers replaced by '
            'subclasses of dict and list. Non-trivial: the dump is a non-empty list or object.')

    def check(self, src, case):
        viajson = src.bool(50)
        d = DCfg(hidedefault=src.bool(60), isodates=src.bool(70), mangle_key='alt' if src.bool(10) else 'name')
        p = Profile(dumpable=True, jsonkeys=viajson, isodates=d.isodates, strconstructed=True)
        p.norepr = True
        g = Gen(src, p)
        node = g.type(top=True)
        case.say(g.prog.source())
        sc = {n.typ for n in g.strconstructed}
        dkw = {'strconstructed': Dumper().strconstructed | sc} if sc else {}
        for _ in range(src.int(1, 3)):
            v = node.value(src)
            w = dress(src, v) if src.bool(25) else v
            o = do_dump(src, d, w, **dkw)
            what = 'dump(%s, **%s)' % (lit(v), d.kwargs())
            if not o.ok:
                fail('value can not be dumped', '%s -> %r' % (what, o))
            out = o.value
            text = '%s -> %s' % (what, lit(out))
            case.say(text)
            case.evaluated((g.prog.source(), lit(v)) if isinstance(out, (list, dict)) and out else None)
            r = plain(out, () if viajson else (bytes,))
            if r:
                fail(r, text)
            r = examine(node.dmatch, v, out, d)
            if r:
                fail('wrong dump: ' + r, text)
            if viajson:
                try:
                    json.dumps(out)
                except (TypeError, ValueError) as e:
                    fail('the dump is not json: %s' % e, text)
