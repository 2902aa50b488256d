"""
Access to the code under test.
"""
import os
import sys
import warnings

REPO = os.environ.get('TLV_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import typedload                                             # noqa
import typedload.dataloader                                  # noqa
import typedload.datadumper                                  # noqa
import typedload.exceptions                                  # noqa
import typedload.typechecks                                  # noqa
from typedload.dataloader import Loader                      # noqa
from typedload.datadumper import Dumper                      # noqa
from typedload.exceptions import (                           # noqa
    TypedloadException, TypedloadValueError, TypedloadTypeError, TypedloadAttributeError,
    AnnotationType)

if not os.path.realpath(typedload.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError('typedload was imported from %s and not from %s' % (typedload.__file__, REPO))

from .engine import Violation, Discard                       # noqa
from .schema import lit, materialise, has_lazy, same, eq     # noqa


class Outcome:
    __slots__ = ('ok', 'value', 'exc', 'text')

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.text = None

    def __repr__(self):
        if self.ok:
            return 'value ' + lit(self.value)
        try:
            return '%s: %s' % (type(self.exc).__name__, str(self.exc).replace('\n', ' | ')[:400])
        except Exception as e:
            return '%s (not printable: %r)' % (type(self.exc).__name__, e)


def cyclic(e, above=()):
    """An exception that is nested in itself"""
    if not isinstance(e, TypedloadException) or len(above) > 300 or not isinstance(e.exceptions, list):
        return False
    if any(i is e for i in above):
        return True
    above += (e,)
    return any(cyclic(i, above) for i in e.exceptions)


def attempt(f, *a, **kw):
    """Outcome of a call; whatever is raised is part of it"""
    try:
        return Outcome(True, f(*a, **kw))
    except Exception as e:
        if cyclic(e):
            raise Violation('an exception is nested in itself: %s %s' % (type(e).__name__, e.args))
        return Outcome(False, None, e)


def clean(o, what=''):
    """The discipline on errors: applied by most properties on all outcomes"""
    if not o.ok and not isinstance(o.exc, TypedloadException):
        raise Violation('%s raised %s: %s, which is not a TypedloadException' % (
            what, type(o.exc).__name__, str(o.exc)[:300]))
    return o


def make_loader(src, cfg, **extra):
    """The documented ways to configure a loader"""
    kw = cfg.kwargs()
    kw.update(extra)
    if src.bool(30):
        l = Loader()
        for k, v in kw.items():
            setattr(l, k, v)
        return l
    return Loader(**kw)


def do_load(src, cfg, raw, typ, **extra):
    """One load of fresh data, through one of the entry points"""
    kw = cfg.kwargs()
    kw.update(extra)
    data = materialise(raw)
    if src.bool(50):
        return attempt(typedload.load, data, typ, **kw)
    return attempt(make_loader(src, cfg, **extra).load, data, typ)


def do_dump(src, dcfg, value, **extra):
    kw = dcfg.kwargs()
    kw.update(extra)
    if src.bool(50):
        return attempt(typedload.dump, value, **kw)
    if src.bool(30) and 'strconstructed' not in kw:
        d = Dumper()
        for k, v in kw.items():
            setattr(d, k, v)
        return attempt(d.dump, value)
    return attempt(Dumper(**kw).dump, value)


def fail(*lines):
    raise Violation('\n'.join(str(i) for i in lines))


class Prop:
    """
    A property.  check() runs one generated case, regressions() yields fixed
    cases (name, function) which are always executed.
    """
    id = None
    title = ''
    rule = ''
    quick = 20000        # cases
    thorough = 400000
    quick_s = 200        # soft limits, in seconds: reaching them is not a violation
    thorough_s = 780
    guided = True        # coverage guided search is useful

    def check(self, src, case):
        raise NotImplementedError

    def regressions(self):
        return []


def examine(f, *a, **kw):
    """
    Runs a part of the oracle on something returned by the code under test.
    The oracles check types as they go; should they trip on the output, the
    output is not what it should be.
    """
    try:
        return f(*a, **kw)
    except (Violation, Discard):
        raise
    except Exception as e:
        return 'the result can not be examined: %r' % e


def annots(e):
    """[(annotation type name, value)] of the trace of an exception"""
    return [(i.annotation[0].value, i.annotation[1]) for i in e.trace if i.annotation]


def norm_type(t):
    return type(None) if t is None else t


def differ(a, b, skip_a=0, skip_b=0, where=''):
    """What is different in two exceptions, nested ones included, or None. skip: steps of the path not to consider"""
    if type(a) is not type(b):
        return '%s%s and %s' % (where, type(a).__name__, type(b).__name__)
    x, y = [str(e).split('\nPath:')[0] for e in (a, b)]
    if x != y:
        return '%smessages %r and %r' % (where, x, y)
    if not (a.value is b.value or same(a.value, b.value)):
        return '%svalues %s and %s' % (where, lit(a.value), lit(b.value))
    if norm_type(a.type_) != norm_type(b.type_):
        return '%stypes %s and %s' % (where, a.type_, b.type_)
    p, q = annots(a)[skip_a:], annots(b)[skip_b:]
    if len(p) != len(q) or any(i != k or not (j is m or same(j, m)) for (i, j), (k, m) in zip(p, q)):
        return '%spaths %s and %s' % (where, lit(p), lit(q))
    for i, j in zip([i for i in a.trace if i.annotation][skip_a:], [i for i in b.trace if i.annotation][skip_b:]):
        if norm_type(i.type_) != norm_type(j.type_) or not (i.value is j.value or same(i.value, j.value)):
            return '%ssteps of the path about %s, %s and %s, %s' % (where, lit(i.value), i.type_, lit(j.value), j.type_)
    if len(a.exceptions) != len(b.exceptions):
        return '%s%d and %d nested exceptions' % (where, len(a.exceptions), len(b.exceptions))
    for n, (i, j) in enumerate(zip(a.exceptions, b.exceptions)):
        r = differ(i, j, where='%snested %d: ' % (where, n))
        if r:
            return r
    return None


def both(a, b, what_a, what_b, compare=same, errors=False):
    """Two outcomes must be equivalent"""
    if a.ok != b.ok:
        fail('different outcomes', '%s: %r' % (what_a, a), '%s: %r' % (what_b, b))
    if a.ok:
        if not compare(a.value, b.value):
            fail('different values', '%s: %r' % (what_a, a), '%s: %r' % (what_b, b))
    elif errors:
        if type(a.exc) is not type(b.exc) or str(a.exc) != str(b.exc):
            fail('different errors', '%s: %r' % (what_a, a), '%s: %r' % (what_b, b))


def plain(x, extra=()):
    """None, or what is not plain data in x"""
    t = type(x)
    if x is None or t in (int, float, str, bool) or t in extra:
        return None
    if t is list:
        for i in x:
            r = plain(i, extra)
            if r:
                return r
        return None
    if t is dict:
        for k, v in x.items():
            r = plain(k, extra) or plain(v, extra)
            if r:
                return r
        return None
    return '%s is not plain data' % lit(x)


def containers(x, out=None):
    """ids of the mutable containers reachable in plain data or typed values"""
    from .schema import obj_fields
    out = {} if out is None else out
    if id(x) in out:
        return out
    if isinstance(x, (list, set, dict, bytearray)) or hasattr(x, '_get_kwargs'):
        out[id(x)] = x
    if isinstance(x, dict):
        for k, v in x.items():
            containers(k, out)
            containers(v, out)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for i in x:
            containers(i, out)
    elif hasattr(x, '_get_kwargs'):
        for v in vars(x).values():
            containers(v, out)
    else:
        f = obj_fields(x)
        if f is not None:
            for i in f:
                containers(getattr(x, i, None), out)
    return out


def regression(prop, name, f):
    """A fixed case; the failure of anything in it is a violation"""
    def run():
        try:
            f()
        except Violation:
            raise
        except AssertionError as e:
            raise Violation('%s: %r' % (name, e))
        except Exception as e:
            raise Violation('%s: %r' % (name, e))
    return name, run
