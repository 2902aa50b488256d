"""The outcome does not depend on the process"""
import json
import os
import subprocess
import sys

from tlv import engine
from tlv.gen import *
from tlv.rt import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = ('1', '77')
# Also in another time zone, with another locale, and without the assertions
ENV = {'1': {'TZ': 'Asia/Kolkata', 'LC_ALL': 'C', 'PYTHONOPTIMIZE': '1'}, '77': {'TZ': 'XYZ+11:30', 'LC_ALL': 'C.UTF-8', 'COLUMNS': '20', 'PYTHONUTF8': '0'}}


def canon(v):
    """Text of a value; the order of the dictionaries matters, the one of the sets does not"""
    t = type(v)
    if t in (list, tuple):
        return '%s(%s)' % (t.__name__, ','.join(map(canon, v)))
    if t is dict:
        return '{%s}' % ','.join(canon(k) + ':' + canon(x) for k, x in v.items())
    if t in (set, frozenset):
        return '%s{%s}' % (t.__name__, ','.join(sorted(map(canon, v))))
    if isinstance(v, enum.Enum):
        return str(v)
    f = obj_fields(v)
    if f is not None:
        return '%s(%s)' % (t.__name__, ','.join('%s=%s' % (i, canon(getattr(v, i, None))) for i in f))
    return lit(v)


def words(s):
    """The words of a message: some contain the repr of a set"""
    return ' '.join(sorted(re.findall(r'[^\s,{}\[\]()]+', s)))


def describe(e):
    return '%s %s | %s | %s | [%s]' % (
        type(e).__name__, words(e._firstline(0)), [(a, str(v)) for a, v in annots(e)], canon(e.value),
        '; '.join(map(describe, e.exceptions)))


def outcome(o):
    return re.sub(' at 0x[0-9a-f]*', '', outcome_(o))


def outcome_(o):
    if o.ok:
        return 'value ' + canon(o.value)
    if isinstance(o.exc, TypedloadException):
        return 'error ' + examine(describe, o.exc)
    return 'error %s' % type(o.exc).__name__


def unordered(raw):
    """True when some sets are in the data: their order is the data"""
    if isinstance(raw, (set, frozenset)):
        return len(raw) > 1
    if isinstance(raw, dict):
        return any(unordered(k) or unordered(v) for k, v in raw.items())
    if isinstance(raw, (list, tuple)):
        return any(map(unordered, raw))
    return False


class Peer:
    def __init__(self, seed):
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', 'import props.c33; props.c33.serve()'], cwd=HERE,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=seed, **ENV[seed]), text=True, bufsize=1)

    def ask(self, choices):
        self.p.stdin.write(json.dumps(choices) + '\n')
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise RuntimeError('the other process has ended')
        return json.loads(r)


def serve():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    p = P()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        src = engine.Source(None, json.loads(line))
        try:
            r = list(p.run(src))
        except Discard as e:
            r = ['discard', str(e)]
        except Exception as e:
            r = ['exception', repr(e)]
        out.write(json.dumps(r) + '\n')
        out.flush()


class P(Prop):
    id = 'C33'
    quick = 8000
    thorough = 200000
    guided = False
    rule = ('Random types, with objects that share several Literal fields in the unions, and data, valid or with faults: the same load, and '
            'the dump of the same value, in three processes which have different hash seeds, hence different orders of the sets of '
            'strings. Results, the order of the dictionaries, the classes of the errors, their paths and their nested errors must be '
            'equal. Non-trivial: an object with at least two fields, or a union, is involved.')
    assumptions = ('Sets come out in any order, and error messages can list missing fields in any order.',)
    peers = None

    def check(self, src, case):
        if self.peers is None or self.peers[0] != os.getpid():
            self.peers = (os.getpid(), [Peer(i) for i in SEEDS])
        n0 = len(src.rec)
        key, *mine = self.run(src)
        try:
            others = [p.ask(src.rec[n0:]) for p in self.peers[1]]
        except BaseException:
            for p in self.peers[1]:
                p.p.kill()
            self.peers = None
            raise
        case.say(*mine)
        case.evaluated((mine[0], mine[1]) if key else None)
        for seed, (k, *o) in zip(SEEDS, others):
            if o[:2] != mine[:2]:
                raise Discard('the generator gave something else') if k != 'exception' else RuntimeError(o)
            case.label('compared')
            for a, b in zip(mine[2:], o[2:]):
                if a != b:
                    fail('with PYTHONHASHSEED=%s: %s' % (os.environ.get('PYTHONHASHSEED'), a), 'with PYTHONHASHSEED=%s: %s' % (seed, b), *mine[:2])

    def run(self, src):
        """[nontrivial, program, data, outcomes...]"""
        cfg = gen_cfg(src)
        if src.bool(12):
            g = Gen(src, Profile(unions='none', dumpable=True, isodates=True), cfg=cfg)
            node = self.hinted(src, g)
        elif src.bool(30):
            g, node = self.tagged(src)
        else:
            p = Profile(unions=src.choice(('any', 'disjoint')), dumpable=True, isodates=True)
            p.kinds = ('list', 'tuple')
            p.weights = dict(p.weights, obj=35, union=15)
            g = Gen(src, p, cfg=cfg)
            node = g.type(top=True)
        raw, _ = gen_raw(src, node, Style(cfg=cfg, extra=src.bool(20)))
        if unordered(raw) or has_lazy(raw):     # (the messages can contain their address)
            raise Discard('unordered')
        r = [any(isinstance(i, (ObjN, UnionN, HintedN)) for i in node.walk()), g.prog.source() + '\n' + node.expr, canon(raw) + str(cfg.kwargs())]
        l = Loader(**cfg.kwargs())
        if src.bool(5):
            l.uniondebugconflict = True
        o = attempt(l.load, materialise(raw), node.typ)
        r.append(outcome(o))
        try:
            v = node.value(src)
        except Collision:
            return r
        hide = src.bool()
        if src.bool(5):
            t = src.choice((1, 30, 17)), src.choice((0, 30))
            for v_ in (datetime.datetime(2020, src.choice((3, 10, 11, 7)), 1, src.choice((2, 1, 23)), t[1], fold=1), datetime.time(2, t[1], fold=1), datetime.date(2020, 3, t[0])):
                r.append(outcome(attempt(Dumper(isodates=True).dump, v_)))
                r.append(outcome(attempt(Loader().load, v_.isoformat(), type(v_))))
        for t in (typing.Any, node.typ):
            r.append(outcome(attempt(Dumper(isodates=True, hidedefault=hide).dump, v, t)))
        return r

    def hinted(self, src, g):
        """An Enum which declares the types of its values"""
        name = g.prog.fresh('E')
        types_ = []
        for _ in range(src.int(2, 5)):
            types_.append(src.choice(('int', 'str', 'float', 'date', 'Tuple[int, int]', 'Tuple[str, ...]', 'Optional[date]', None)) or g.obj(0).expr)
        lines = ['    x%d: %s' % (i, t) for i, t in enumerate(types_)]
        values = src.sample(('1', '"a"', '(1, 2)', '"2020-01-01"', '2.5', 'None'), src.int(1, 3))
        lines += ['    M%d = %s' % (i, v) for i, v in enumerate(values)]
        g.prog.add('class %s(Enum):\n%s' % (name, '\n'.join(lines)))
        return HintedN(g.prog, name)

    def tagged(self, src):
        """Objects with many literals in common, and overlapping values"""
        g = Gen(src, Profile(unions='none', dumpable=True, isodates=True))
        nodes = []
        names = src.sample(('type', 'kind', 'name', 't', 'a', 'zz', 'Q'), src.int(2, 4))
        for i in range(src.int(2, 3)):
            fields = []
            for n in src.shuffle(names):
                vals = src.sample(('a', 'b', 'c', 1, 2), src.int(1, 3))
                f = '%s: Literal[%s]' % (n, ', '.join(map(repr, vals)))
                fields.append((f, repr(vals[0]) if src.bool(70) else None))
            fields.append(('other: int', '0'))
            fields.sort(key=lambda f: f[1] is not None)
            name = g.prog.fresh('U')
            kind = src.choice(('@dataclass\nclass %s:', 'class %s(NamedTuple):', '@attr.define\nclass %s:'))
            g.prog.add(kind % name + ''.join('\n    %s%s' % (f, ' = ' + d if d else '') for f, d in fields))
            nodes.append(RawN(g.prog, name, names))
        node = UnionN(g.prog, nodes)
        return g, node


class RawN(Node):
    """An object of which only the data is generated"""
    def __init__(self, prog, name, names):
        self.expr = name
        self.typ = prog.ns[name]
        self.names = names

    def value(self, src):
        raw = {}
        for n in self.names:
            if src.bool(60):
                raw[n] = src.choice(('a', 'b', 'c', 1, 2))
        if src.bool(30):
            raw['other'] = 3
        self.last = raw
        try:
            return self.typ(**raw)
        except TypeError:
            raise Collision()

    def raw(self, src, v, st):
        return self.last

    def conforms(self, out):
        return None if type(out) is self.typ else 'another type'


class HintedN(Node):
    """Data which is rarely good"""
    def __init__(self, prog, name):
        self.expr = name
        self.typ = prog.ns[name]

    def value(self, src):
        return src.choice(list(self.typ))

    def raw(self, src, v, st):
        return src.choice((3, 'x', {}, [1], [1, 'a'], {'a': 1}, 3.5, [2020, 1, 1], v.value))

    def conforms(self, out):
        return None if type(out) is self.typ else 'another type'
