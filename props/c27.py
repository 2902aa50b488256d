"""Dates, times and durations"""
import datetime as dt
import decimal
import math
from tlv.gen import *
from tlv.rt import *

T = {'date': dt.date, 'time': dt.time, 'datetime': dt.datetime}


class MyDateTime(dt.datetime):
    pass


class Seasonal(dt.tzinfo):
    """As those of the real world, the offset of a time is not known without the date"""
    def __init__(self, hours):
        self.hours = hours

    def utcoffset(self, d):
        return None if d is None else dt.timedelta(hours=self.hours + (3 < d.month < 10))

    def dst(self, d):
        return None if d is None else dt.timedelta(hours=3 < d.month < 10)

    def tzname(self, d):
        return 'S'

    def __repr__(self):
        return 'Seasonal(%d)' % self.hours


class Nowhere(dt.tzinfo):
    """It is never known"""
    def utcoffset(self, d):
        return None
    dst = tzname = utcoffset

    def __repr__(self):
        return 'Nowhere()'


def tz(src, strange=False):
    if not src.bool(40):
        return None
    if strange and src.bool(20):
        return src.choice((Seasonal(1), Seasonal(-5), Nowhere()))
    k = src.draw(4)
    if k == 0:
        return dt.timezone.utc
    if k == 1:
        return dt.timezone(dt.timedelta(seconds=src.int(-86399, 86399)))
    if k == 2:
        return dt.timezone(dt.timedelta(minutes=src.int(-1439, 1439)), src.choice(('X', 'name')))
    return dt.timezone(dt.timedelta(hours=src.int(-12, 14)))


def value(src, kind, aware=True, strange=False):
    y = src.choice((1, 1000, 1899, 1970, 1999, 2000, 2023, 2024, 2100, 9999))
    m = src.int(1, 12)
    d = src.int(1, 28) if src.bool(80) else {2: 28}.get(m, 30)
    if kind == 'date':
        return dt.date(y, m, d)
    t = (src.int(0, 23), src.int(0, 59), src.int(0, 59) if src.bool(70) else 0,
         src.choice((0, 1, 999999, 500000, 1000, 999, 100000, 123456)))
    z = tz(src, strange) if aware else None
    if kind == 'time':
        return dt.time(*t, tzinfo=z, fold=src.draw(2) if src.bool(10) else 0)
    return dt.datetime(y, m, d, *t, tzinfo=z, fold=src.draw(2) if src.bool(10) else 0)


def parts(v):
    if isinstance(v, dt.datetime):
        return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
    if isinstance(v, dt.date):
        return [v.year, v.month, v.day]
    return [v.hour, v.minute, v.second, v.microsecond]


def mutate(src, s):
    k = src.draw(8)
    i = src.draw(len(s)) if s else 0
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + src.choice('0123456789-:T Z+.W,t') + s[i:]
    if k == 2:
        return s[:i] + src.choice('0123456789-:T Z+.W,t') + s[i + 1:]
    if k == 3:
        return s.replace('T', src.choice((' ', 't', '_', '')))
    if k == 4:
        return s.replace('-', '')
    if k == 5:
        return s + src.choice(('Z', '+00:00', '-01', '+0130', ' ', '\n', '.5', '+24:00', '+23:59:59.999999'))
    if k == 6:
        return s.replace(':', '')
    return src.choice(DateN.ODD)


def alike(a, b):
    return type(a) is type(b) and a == b and (isinstance(a, dt.timedelta) or a.isoformat() == b.isoformat() and
                                              (not hasattr(a, 'utcoffset') or a.utcoffset() == b.utcoffset()))


class P(Prop):
    id = 'C27'
    quick = 60000
    thorough = 1500000
    rule = ('date, time, datetime (naive and aware, with any offset) and timedelta, alone and nested: ISO strings, valid or with changes, '
            'lists of numbers of any length and kind, anything else; and the dumps in both formats, loaded back. The datetime module is the '
            'reference. Non-trivial: the data is a string or a list, or a round trip.')
    assumptions = ('The conversion of timedelta to seconds is exact only for durations shorter than 270 years.',)

    def place(self, src, typ):
        """A type containing it"""
        k = src.draw(8)
        if k < 3:
            return typ, lambda x: x, lambda o: o, 'plain'
        if k == 3:
            return typing.List[typ], lambda x: [x, x], lambda o: o[1], 'list'
        if k == 4:
            return typing.Dict[str, typ], lambda x: {'k': x}, lambda o: o['k'], 'dict'
        if k == 5:
            return typing.Tuple[int, typ], lambda x: [1, x], lambda o: o[1], 'tuple'
        if k == 6:
            return typing.NewType('N', typ), lambda x: x, lambda o: o, 'newtype'
        return typing.NamedTuple('X', [('a', typ)]), lambda x: {'a': x}, lambda o: o.a, 'field'

    def check(self, src, case):
        if src.bool(25):
            return self.timedelta(src, case)
        kind = src.choice(list(T))
        typ = T[kind]
        if src.bool(40):
            return self.roundtrip(src, case, kind, typ)
        k = src.draw(5)
        if k < 2:
            x = value(src, src.choice((kind, kind, kind, 'date', 'time', 'datetime'))).isoformat()
            for _ in range(src.weighted([(2, 0), (3, 1), (1, 2)])):
                x = mutate(src, x)
        elif k == 2:
            x = parts(value(src, src.choice((kind, kind, 'date', 'time', 'datetime'))))
            for _ in range(src.weighted([(2, 0), (3, 1)])):
                x = list(x)
                op = src.draw(4)
                if op == 0 and x:
                    x.pop()
                elif op == 1:
                    x.append(src.choice((0, 1, 13, 999999, 1000000, None, -1)))
                elif op == 2 and x:
                    x[src.draw(len(x))] = src.choice((0, -1, 13, 24, 60, 32, 10**6, 10**10, 10**30, True, 1.0, '1', None, 1.5, [1]))
                else:
                    x = x[:src.draw(len(x) + 1)]
            if src.bool(20):
                x = tuple(x)
        else:
            x = src.choice((None, 1, 0, 2020, 1.5, True, '', {}, [], b'2020-01-01', [[]], ['2020-01-01'], {'year': 2020}, '2020', object,
                            ((2020, 1, 1),), 'a', [2020], [2020, 1], math.nan, None))
            if x is None:
                # An object that is not data
                x = value(src, src.choice(list(T))) if src.bool(80) else dt.timedelta(days=src.int(0, 3))
        try:
            if isinstance(x, str):
                want = typ.fromisoformat(x)
            elif type(x) in (list, tuple):
                want = typ(*x)
            elif isinstance(x, (dict, bytes)):
                return
            else:
                want = None
        except Exception:
            want = None
        t, dress, undress, where = self.place(src, typ)
        o = clean(attempt(Loader(basiccast=src.bool(), failonextra=src.bool()).load, dress(x), t), 'load(%s, %s)' % (lit(dress(x)), where))
        text = 'load(%s, %s of %s) -> %r' % (lit(dress(x)), where, kind, o)
        case.say(text)
        case.evaluated((kind, where, lit(x)) if isinstance(x, (str, list, tuple)) else None)
        case.label(kind, 'accepted' if want is not None else 'refused')
        if o.ok != (want is not None):
            fail('expected %s' % (want,), text)
        if o.ok:
            got = examine(undress, o.value)
            if not alike(got, want):
                fail('expected %r got %r' % (want, got), text)
        elif not same(o.exc.value, x) or o.exc.type_ is not typ:
            fail('the exception refers to %s %s' % (lit(o.exc.value), o.exc.type_), text)

    def roundtrip(self, src, case, kind, typ):
        v = value(src, kind, strange=True)
        t, dress, undress, where = self.place(src, typ)
        if where == 'tuple':
            val = (1, v)
        elif where == 'field':
            val = t(v)
        else:
            val = dress(v)
        iso = src.bool(60)
        aware = getattr(v, 'tzinfo', None) is not None
        if src.bool():
            o = attempt(Dumper(isodates=iso).dump, val)
        else:
            o = attempt(typedload.dump, val, isodates=iso)
        text = 'dump(%r, isodates=%s) -> %r' % (val, iso, o)
        case.say(text)
        case.evaluated((where, repr(v), iso))
        case.label('dump ' + kind + (' aware' if aware else ''))
        if aware and not iso:
            if o.ok:
                fail('the offset is lost', text)
            return
        if not o.ok:
            fail('can not be dumped', text)
        want = v.isoformat() if iso else parts(v)
        x = o.value
        x = x[1] if where in ('list', 'tuple') else x['k'] if where == 'dict' else x['a'] if where == 'field' else x
        if not same(x, want):
            fail('expected %s' % lit(want), text)
        if where not in ('plain', 'newtype'):
            if not same(o.value, {'list': [want, want], 'dict': {'k': want}, 'tuple': [1, want], 'field': {'a': want}}[where]):
                fail('unexpected dump', text)
        if getattr(v, 'utcoffset', bool)() is None:
            # Nothing in the ISO format about it
            v = v.replace(tzinfo=None)
        b = clean(attempt(Loader().load, o.value, t), 'load')
        if not b.ok or not alike(examine(undress, b.value), v):
            fail('the dump loads to %r' % b, text)

    def timedelta(self, src, case):
        typ = dt.timedelta
        t, dress, undress, where = self.place(src, typ)
        if src.bool():
            v = dt.timedelta(days=src.choice((0, 0, 1, -1, 365, -3650, 90000)), seconds=src.int(-100000, 100000),
                             microseconds=src.choice((0, 1, -1, 999999, 500000, 123456)) if src.bool() else src.int(0, 999999))
            val = (1, v) if where == 'tuple' else t(v) if where == 'field' else dress(v)
            o = attempt(Dumper().dump, val)
            text = 'dump(%r) -> %r' % (val, o)
            case.say(text)
            case.label('dump timedelta')
            case.evaluated((where, v))
            want = v.total_seconds()
            x = {'list': [want, want], 'dict': {'k': want}, 'tuple': [1, want], 'field': {'a': want}}.get(where, want)
            if not o.ok or not same(o.value, x):
                fail('expected %s' % lit(x), text)
            b = clean(attempt(Loader().load, o.value, t), 'load')
            if not b.ok or not alike(examine(undress, b.value), v):
                fail('the dump loads to %r' % b, text)
            return
        x = src.choice((0, 1, -1, 0.5, 1e-6, 1.5e9, -0.1, 86400, 10**9, 10**14, 10**30, -10**14, 1e14, 1e300, math.nan, math.inf, -math.inf,
                        '1', '', None, [], [1], {}, 'a', (1, 2), b'1', 1e-7, 3600.25, 86399.999999, dt.timedelta(1), dt.date(2000, 1, 1), True)) if src.bool(70) else \
            src.int(-10**7, 10**7) / src.choice((1, 10, 1000, 7))
        try:
            want = dt.timedelta(seconds=x)
        except Exception:
            want = None
        o = clean(attempt(Loader(basiccast=src.bool()).load, dress(x), t), 'load(%s)' % lit(x))
        text = 'load(%s, %s of timedelta) -> %r' % (lit(dress(x)), where, o)
        case.say(text)
        case.label('timedelta')
        case.evaluated((where, lit(x)))
        if o.ok != (want is not None):
            fail('expected %r' % want, text)
        if o.ok and not alike(examine(undress, o.value), want):
            fail('expected %r' % want, text)

    def regressions(self):
        def overflow():
            for x in (10**30, -10**30, 1e300, math.nan, math.inf):
                o = attempt(Loader().load, x, dt.timedelta)
                assert not o.ok and isinstance(o.exc, TypedloadValueError), repr(o)
            for t in (dt.date, dt.time, dt.datetime):
                o = attempt(Loader().load, [10**30, 1, 1], t)
                assert not o.ok and isinstance(o.exc, TypedloadException), repr(o)
        yield regression(self, 'overflow', overflow)
