import calendar
import datetime
import re

from .common import *
from .u01 import CallCheck, HTTP

DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
EPOCH = datetime.datetime(1970, 1, 1)
FORMS = (re.compile(r'(?P<wd>[A-Za-z0-9_]{3}), (?P<d>[0-9]{2}) (?P<m>[A-Za-z]{3}) (?P<y>[0-9]{4}) (?P<t>[0-9]{2}:[0-9]{2}:[0-9]{2}) GMT'),
         re.compile(r'(?P<wd>[A-Za-z0-9_]{6,9}), (?P<d>[0-9]{2})-(?P<m>[A-Za-z]{3})-(?P<y>[0-9]{2}) (?P<t>[0-9]{2}:[0-9]{2}:[0-9]{2}) GMT'),
         re.compile(r'(?P<wd>[A-Za-z0-9_]{3}) (?P<m>[A-Za-z]{3}) (?P<d>[ 0-9][0-9]) (?P<t>[0-9]{2}:[0-9]{2}:[0-9]{2}) (?P<y>[0-9]{4})'))


def render(t, form):
    clock = '%02d:%02d:%02d' % (t.hour, t.minute, t.second)
    wd, mon = DAYS[t.weekday()], MONTHS[t.month - 1]
    if form == 0:
        return '%s, %02d %s %04d %s GMT' % (wd[:3], t.day, mon, t.year, clock)
    if form == 1:
        return '%s, %02d-%s-%02d %s GMT' % (wd, t.day, mon, t.year % 100, clock)
    return '%s %s %2d %s %04d' % (wd[:3], mon, t.day, clock, t.year)


def seconds(t):
    d = t - EPOCH
    return d.days * 86400 + d.seconds


def meaning(s):
    """('valid', time) in one of the three formats; ('gray', time) if only the day of the week or the case is wrong; ('invalid', None)"""
    for i, f in enumerate(FORMS):
        m = f.fullmatch(s)
        if not m:
            continue
        mon = m.group('m').capitalize()
        if mon not in MONTHS:
            return 'invalid', None
        y = int(m.group('y'))
        if i == 1:
            y += 1900 if y >= 70 else 2000
        try:
            h, mi, sec = map(int, m.group('t').split(':'))
            t = datetime.datetime(y, MONTHS.index(mon) + 1, int(m.group('d')), h, mi, sec)
        except ValueError:
            if sec == 60:
                return 'leap', None
            return 'invalid', None
        if render(t, i) == s:
            return 'valid', seconds(t)
        return 'gray', seconds(t)
    return 'invalid', None


class CHECK(CallCheck):
    id = 'U03'
    n = 2200
    rule = ('seconds of all years (also the first and last of days, months, years, centuries) formatted by the code and in all three formats by the checker, parsed by both functions; corruptions of single characters and fields; distinct by batch')
    required = ('http_date', 'fraction', 'now', 'RFC 1123', 'RFC 850', 'asctime', 'valid', 'invalid', 'gray', 'leap day', 'text', 'bytes', '19xx', '20xx')
    assumptions = ['a day of the week that does not fit the date, other letter case and second 60 may be refused or accepted (then as the time that the other fields say)']

    def moment(self, rng, form):
        years = (1970, 2069) if form == 1 else (1970, 9999)
        r = rng.random()
        if r < 0.35:
            y = rng.choice([1970, 1999, 2000, 2001, 2038, 2068, 2069] if form == 1 else [1970, 1999, 2000, 2038, 2069, 2070, 2100, 2400, 9999])
            t = datetime.datetime(y, rng.choice([1, 2, 3, 12]), rng.choice([1, 28]), rng.choice([0, 23, 12]), rng.choice([0, 59]), rng.choice([0, 59]))
            if rng.random() < 0.3:
                y = rng.choice([1972, 2000, 2024, 2068])
                t = t.replace(year=y, month=2, day=28) + datetime.timedelta(days=1)
            return t
        y = rng.randint(*years)
        return datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)) + datetime.timedelta(days=rng.choice([0, 0, 1, 2, 3]) if y < 9999 and (form != 1 or y < 2069) else 0)

    def one(self, rng, tags):
        form = rng.randrange(3)
        t = self.moment(rng, form)
        s = render(t, form)
        if rng.random() < 0.25:
            x = seconds(t)
            arg = x
            if rng.random() < 0.4:
                arg = x      # (fractions travel as a division)
                tags.add('fraction')
                # exactly representable fractions only
                return [(HTTP + 'http_date', [x], {}), (HTTP + 'http_date', [{'q': x}], {})], ('fmt', render(t, 0))
            tags.add('http_date')
            return [(HTTP + 'http_date', [arg], {}), (HTTP + 'parse_http_date', [render(t, 0)], {})], ('format', render(t, 0), x)
        if rng.random() < 0.02:
            tags.add('now')
            return [(HTTP + 'http_date', [], {})], ('now',)
        if rng.random() < 0.5:
            s = self.corrupt(rng, s)
        kind, want = meaning(s)
        tags.add(kind)
        if kind == 'valid':
            tags.add(('RFC 1123', 'RFC 850', 'asctime')[form])
            if form == 1:
                tags.add('19xx' if t.year < 2000 else '20xx')
            if (t.month, t.day) == (2, 29):
                tags.add('leap day')
        uni = rng.random() < 0.5 or any(ord(c) > 127 for c in s)
        tags.add('text' if uni else 'bytes')
        a = s if uni else s.encode()
        return [(HTTP + 'parse_http_date', [a], {}), (HTTP + 'parse_http_date_safe', [a], {})], ('parse', s, kind, want)

    def corrupt(self, rng, s):
        r = rng.random()
        if r < 0.35:
            i = rng.randrange(len(s))
            return s[:i] + rng.choice(['', '0', '9', '3', '6', ' ', ':', 'x', '-', ',', '\u0661', s[i] * 2, s[i].swapcase()]) + s[i + 1:]
        if r < 0.75:
            # a field out of range
            fields = list(re.finditer('[0-9]+', s))
            f = rng.choice(fields)
            v = rng.choice(['00', '01', '24', '25', '29', '30', '31', '32', '59', '60', '61', '99', '69', '70'])
            if f.end() - f.start() == 4:
                v = rng.choice(['0000', '0001', '0050', '0069', '0070', '0094', '0099', '0100', '1900', '2100', '1969', '9999'])
            if f.end() - f.start() == 1:
                v = rng.choice('0123456789')
            return s[:f.start()] + v + s[f.end():]
        if r < 0.85:
            for m in MONTHS:
                if m in s:
                    return s.replace(m, rng.choice(['Feb', 'Apr', 'Jun', 'Sep', 'feb', 'FEB', 'Foo', 'Mai', 'Sept', m.lower(), m.upper()]))
        if r < 0.92:
            return rng.choice([' ' + s, s + ' ', s + '\n', '\n' + s, s + 'x', s[:-1], s.replace('GMT', 'UTC'), s.replace('GMT', 'gmt'), s.replace('GMT', '+0000'), s + '\r\n', s.replace(' ', '  ', 1), s.replace(', ', ','), s + '; x'])
        return rng.choice(['', ' ', 'x', '0', '784111777', '1994-11-06', 'Sun, 06 Nov 1994', '06 Nov 1994 08:49:37 GMT', 'Sun, 6 Nov 1994 08:49:37 GMT', 'Sunday, 06-Nov-1994 08:49:37 GMT', 'Sun, 06-Nov-94 08:49:37 GMT', 'Sunday, 06 Nov 94 08:49:37 GMT', 'Sun Nov 6 08:49:37 1994', 'Sun Nov  6 08:49:37 1994 GMT'])

    def judge_one(self, ps, x, r):
        if x[0] == 'format':
            if r[0] != x[1]:
                ps.append(Problem('http_date is %r instead of %r' % (r[0], x[1]), 'format'))
            if r[1] != x[2]:
                ps.append(Problem('%r is parsed as %r instead of %r' % (x[1], r[1], x[2]), 'parse'))
        elif x[0] == 'fmt':
            if r[0] != x[1] or r[1] != x[1]:
                ps.append(Problem('http_date is %r and with a fraction %r instead of %r' % (r[0], r[1], x[1]), 'format'))
        elif x[0] == 'now':
            kind, t = meaning(r[0]) if isinstance(r[0], str) else ('?', None)
            now = calendar.timegm(datetime.datetime.utcnow().timetuple())
            if kind != 'valid' or not now - 900 < t < now + 60:
                ps.append(Problem('http_date() is %r' % (r[0],), 'now'))
        else:
            _, s, kind, want = x
            exc, safe = r
            refused = is_exc(exc, 'ValueError')
            if is_exc(exc) and not refused or (safe is not None) == refused or not refused and safe != exc:
                ps.append(Problem('%r: parse_http_date %r, parse_http_date_safe %r' % (s, exc, safe), 'consistent'))
            elif kind == 'valid' and exc != want or kind == 'gray' and not refused and exc != want:
                ps.append(Problem('%r is parsed as %r instead of %r' % (s, exc, want), 'parse'))
            elif kind == 'invalid' and not refused:
                ps.append(Problem('%r is not a date, but taken for %r' % (s, exc), 'invalid'))
