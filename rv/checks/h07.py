import ast

from .common import *
from core import u

FAIL = ('InvalidHttpRequest', 'NoHostFoundException', 'TooManyFieldsSent', 'MultiPartParserError', 'RequestDataTooBig', 'SuspiciousMultipartForm', 'UnicodeDecodeError', 'UnreadablePostError')


class CHECK(Check):
    id = 'H07'
    n = 1200
    rule = ('requests of all kinds (valid, malformed, with failing sources) in all stages of parsing, whose repr() and str(), and those of all dictionaries, files and the stream in them, are taken between the stages; they are compared '
            'with the documented form, and what is reported afterwards with a request that was never printed; distinct by bytes, delivery and plan')
    required = ('before', 'head', 'parsed', 'failed', 'file', 'file on disk', 'file in memory', 'Unicode name', 'odd name', 'GET', 'POST', 'no path', 'quote in path', 'new stream', 'content of GET', 'content of POST', 'content of headers', 'several values')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            tags = []
            st = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 50, 10 ** 6])}
            extra = {}
            k = rng.random()
            if k < 0.5:
                head, m = gen.gen_head(rng, nhost=1, ctype=rng.choice([None, 'text/plain', 'application/x-www-form-urlencoded']))
                data = head + (b'a=b&c=%C3%A9&a=2' if m['ctype'] else b'')
                method, target = m['method'], m['target']
            else:
                head, body, m = gen.multipart(rng, fields=(0, 3), files=(0, 3))
                data = head + body
                if rng.random() < 0.1:
                    data = data[:rng.randint(len(head), len(data))]
            if rng.random() < 0.15:
                j = rng.randrange(len(data))
                data = data[:j] + bytes([rng.randrange(256)]) + data[j + rng.choice([0, 1, 30]):]
            hs, names = gen_handlers(rng)
            if len(data) > 5000 and isinstance(hs, list) and isinstance(hs[0], dict):
                hs = None
            plain = rng.choice([[['header'], ['parse_body']], [['parse']], [['header']], [['header'], ['body']]])
            if rng.random() < 0.3:
                plain = plain + [['stream', src(b'GET /x?y=z HTTP/1.1\r\nHost: b.org\r\n\r\n')], ['header']]
                tags.append('new stream')
            name = rng.choice([u('\u20ac\xe9.txt'), u('r\xe9.txt'), b('\xff\xfe'), b('a"b>.txt'), b('%s %(x)s'), u('plain'), u('\U0001F600')])
            rename = rng.random() < 0.5
            end = [['snap', ['meta', 'get', 'data']]]
            with_, without = [['diag']], []
            for s in plain:
                with_ += [s, ['diag']]
                without += [s]
                if s[0] in ('parse', 'parse_body') and rename:
                    with_ += [['rename', name], ['diag']]
                    without += [['rename', name]]
            cs = gen.cuts(rng, len(data))
            if rng.random() < 0.1:
                extra = {'fail': rng.randint(0, 3), 'kind': 'io'}
            jobs = [dict(req(data, ss + end, cs, st, hs, 'up')) for ss in (with_, without)]
            for j in jobs:
                j['src'].update(extra)
            yield Case({'op': 'multi', 'jobs': jobs}, None, tags)

    def judge(self, c, res):
        ps = []
        a, z = [[dec(s) for s in r['steps']] for r in res['results']]
        plan = c.job['jobs'][0]['steps']
        rest = [r for s, r in zip(plan, a) if s[0] != 'diag']
        if rest[:-1] != z[:-1] or self.named(rest[-1]) != self.named(z[-1]):
            ps.append(Problem('printing a request changed what it reports: %r instead of %r' % (rest, z), 'changed'))
        stage = 'before'
        for s, r in zip(plan, a):
            if s[0] != 'diag':
                stage = 'failed' if is_exc(r) else 'head' if s[0] == 'header' else 'parsed'
                continue
            self.seen(stage)
            if not isinstance(r, list):
                return ps + [Problem('%r' % (r,), 'diag')]
            for t in r:
                if t[2] != 'str':
                    ps.append(Problem('%s() of %s (%s) gives %s: %r' % (t[1], t[0], stage, t[2], t[3]), t[0] + '-' + t[1]))
                elif t[0] in ('GET', 'POST', 'FILES', 'headers'):
                    cls = t[4]
                    if not isinstance(t[3], (str, bytes)):
                        continue
                    v = t[3] if isinstance(t[3], str) else t[3].decode('latin-1')
                    self.seen(t[0])
                    if t[1] == 'repr' and (not v.startswith('<%s: {' % cls) or not v.endswith('}>')):
                        ps.append(Problem('%s() of %s is %r' % (t[1], t[0], v), 'dict'))
                elif t[0] == 'file':
                    self.seen('file', 'file on disk' if t[4].startswith('Temp') else 'file in memory')
                    n = t[5].encode('utf-8') if isinstance(t[5], str) else t[5] if isinstance(t[5], bytes) else None
                    ct = t[6].encode('latin-1') if isinstance(t[6], str) else t[6] if isinstance(t[6], bytes) else b'None' if t[6] is None else None
                    if n is None or ct is None:
                        continue
                    if any(x > 127 for x in n):
                        self.seen('Unicode name')
                    if any(chr(x) in '"<>%' for x in n):
                        self.seen('odd name')
                    want = n if t[1] == 'str' else b'<' + t[4].encode() + b': ' + n + b' (' + ct + b')>'
                    if t[3] != norm(want):
                        ps.append(Problem('%s() of a file is %r instead of %r' % (t[1], t[3], want), 'file'))
                elif t[0] == 'request' and t[3] != '<HttpRequest>':
                    v = t[3].decode('latin-1') if isinstance(t[3], bytes) else t[3]
                    if isinstance(v, str) and (not v.startswith('<HttpRequest: ') or not v.endswith('>')):
                        ps.append(Problem('%s() of a request is %r' % (t[1], t[3]), 'request'))
                elif t[0] == 'request' and stage == 'parsed':
                    self.seen('no path')
        # at the end: method and full path
        snap = rest[-1]
        if plan[-2] == ['diag'] and isinstance(snap, dict) and isinstance(a[-2], list):
            full, method = snap.get('get_full_path'), snap.get('method')
            want = '<HttpRequest>' if method is None or not full else '<HttpRequest: %s %r>' % (method, full) if isinstance(full, str) and isinstance(method, str) else None
            if want and "'" in full:
                self.seen('quote in path')
            for t in a[-2]:
                if t[0] == 'request' and want is not None and len(want) < 1400 and t[3] != want:
                    ps.append(Problem('%s() of a request is %r instead of %r' % (t[1], t[3], want), 'request'))
            for t in a[-2]:
                if t[0] in ('GET', 'POST', 'headers') and t[1] == 'repr' and isinstance(t[3], (str, bytes)):
                    lists = snap.get(t[0])
                    v = t[3] if isinstance(t[3], str) else t[3].decode('latin-1')
                    want = content(lists)
                    if want is None:
                        continue
                    try:
                        got = ast.literal_eval(v[len(t[4]) + 3:-1])
                        got = dict((k, list(l)) for k, l in got.items())
                    except (ValueError, SyntaxError, TypeError, AttributeError):
                        got = None
                    if got != want:
                        ps.append(Problem('repr() of %s is %r, its content %r' % (t[0], v, want), 'content'))
                    elif want:
                        self.seen('content of ' + t[0])
                        if any(len(l) > 1 for l in want.values()):
                            self.seen('several values')
        return ps

    @staticmethod
    def named(s):
        """without the names of temporary files"""
        if not isinstance(s, dict) or not isinstance(s.get('FILES'), list):
            return s
        return dict(s, FILES=[[k, [dict((a, v) for a, v in f.items() if a != 'path') for f in l]] for k, l in s['FILES']])


def content(lists):
    """{name: [values]} if all of them are plain strings that the agent reported in full"""
    out = {}
    if not isinstance(lists, list):
        return None
    for k, l in lists:
        for x in [k] + l:
            if not isinstance(x, (str, bytes)):
                return None
        out[plain(k)] = [plain(x) for x in l]
    return out


def plain(x):
    return x.decode('latin-1') if isinstance(x, bytes) else x
