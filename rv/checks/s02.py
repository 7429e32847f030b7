from .common import *
from .d01 import random_request, outcome

ALL = ['meta', 'get', 'data', 'uri']


def small_request(rng):
    while True:
        r = random_request(rng)
        if len(r[0]) < 6000:
            return r


def shares_multipart(kind):
    return 'multipart' in kind


class CHECK(Check):
    id = 'S02'
    n = 900
    rule = ('a request object that parsed (or failed to parse, or half parsed) other requests is given a new stream or body stream, or parsed again; what it reports is compared with what a fresh object '
            'reports for the same bytes; distinct by requests and plan')
    technique = 'runtime monitoring: metamorphic comparison of reused and fresh objects'
    required = ('stream', 'body_stream', 'again', 'split', 'body-first', 'encoding', 'after failure', 'half parsed', 'chain', 'new request fails', 'files', 'POST', 'charset before', 'memory limit', 'refused before')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            mode = gen.pick(rng, [(5, 'stream'), (4, 'body_stream'), (2, 'again'), (1.5, 'split'), (1, 'body-first')])
            tags = [mode]
            data, st, hs, hot, kind = small_request(rng)
            hs = hs or ['conv']
            files = lambda: b''.join(gen.multipart(rng, fields=(0, 2), files=(1, 3), sizes=[0, 5, 20, 60], field_sizes=[0, 3])[:2])
            limited = mode == 'stream' and rng.random() < 0.25 or mode == 'body_stream' and rng.random() < 0.15
            if limited:
                # the files of one request don't count for the memory limit of the next
                data, kind, hs = files(), 'multipart', ['conv']
                st = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([10, 30, 70, 150])}
                tags.append('memory limit')
            cut = lambda d: gen.cuts(rng, len(d), [len(d) // 2])
            fresh = [['parse'], ['snap', ALL]]
            if rng.random() < 0.3 and mode in ('stream', 'body-first'):
                fresh = rng.choice([[['header'], ['snap', ALL[:2]], ['parse_body'], ['snap', ALL]], [['header'], ['body'], ['parse_body'], ['snap', ALL]], [['body'], ['snap', ALL[:2]]], [['header'], ['read', 5], ['readline'], ['read']]])
            x = {'mode': mode}
            if mode == 'stream':
                n = gen.pick(rng, [(4, 1), (2, 2), (1, 4)])
                if n > 1:
                    tags.append('chain')
                stps, first = [], None
                for k in range(n):
                    d2 = small_request(rng)[0]
                    if rng.random() < 0.15:
                        d2 = data        # the same again
                    elif limited and rng.random() < 0.7:
                        d2 = files()
                    if rng.random() < 0.06:
                        # a head that declares a charset and is refused
                        d2 = b'POST /?%s HTTP/1.1\r\nHost: a.com\r\nContent-Type: application/x-www-form-urlencoded; charset=%s\r\n\r\nx=%%e9' % (
                            b'&'.join([b'a=%e9'] * rng.randint(3, 12)), rng.choice([b'utf-8', b'koi8-r', b'shift_jis']))
                        st = dict(st or {}, DATA_UPLOAD_MAX_FIELDS=rng.choice([1, 2, 4]))
                        tags.append('refused before')
                    if b'charset' in d2:
                        tags.append('charset before')
                    s = src(d2, cut(d2))
                    if first is None:
                        first = s
                    else:
                        stps.append(['stream', s])
                    stps += rng.choice([[['parse']], [['parse']], [['parse'], ['snap', ALL]], [['header']], [['header'], ['read', 7]], [['header'], ['body']], [['body']], [], [['parse_body']], [['header'], ['readline'], ['parse_body']],
                                        [['parse'], ['close']], [['parse'], ['body']]])
                if not any(s[0] == 'parse' for s in stps):
                    tags.append('half parsed')
                j = {'op': 'req', 'src': first, 'steps': stps + [['stream', src(data, cut(data))]] + fresh}
                ref = {'op': 'req', 'src': src(data, cut(data)), 'steps': fresh}
            elif mode == 'body_stream':
                # a new body under the old head
                at = data.find(b'\r\n\r\n') + 4
                if at < 4:
                    continue
                head = data[:at]
                other = small_request(rng)[0]
                o = other.find(b'\r\n\r\n') + 4
                body2 = rng.choice([b'', b'x=1&x=2&y=%E9', other[max(o, 0):], data[at:]])
                if 'multipart' in kind and (limited or rng.random() < 0.7):
                    body2 = data[at:]
                    data = head + (body2 if limited else rng.choice([b'', b'junk', other[max(o, 0):], body2[:len(body2) // 2]]))
                enc = []
                if rng.random() < 0.35:
                    enc = [['set', 'encoding', rng.choice(['utf-8', 'koi8-r', 'windows-1252'])]]
                    tags.append('encoding')
                before = rng.choice([[['parse']], [['parse'], ['snap', ALL]], [['header']], [['header'], ['body']], [['header'], ['read', 3]], [['parse'], ['close']]])
                tail = rng.choice([[['parse_body'], ['snap', ALL]], [['parse_body'], ['snap', ALL]], [['body'], ['parse_body'], ['snap', ALL]], [['parse'], ['snap', ALL], ['body']], [['read']]])
                if rng.random() < 0.5:
                    a = before + enc + [['body_stream', src(body2, cut(body2))]] + tail
                else:
                    a = before + [['body_stream', src(body2, cut(body2))]] + enc + tail
                j = {'op': 'req', 'src': src(data, cut(data)), 'steps': a}
                ref = {'op': 'req', 'src': src(head + body2, cut(head + body2)), 'steps': [['header']] + enc + tail}
                fresh = tail
            elif mode == 'again':
                stps = [['parse'], ['snap', ALL], ['src']]
                for k in range(rng.randint(1, 3)):
                    stps.append([rng.choice(['parse', 'header', 'parse_body'])])
                j = {'op': 'req', 'src': src(data, cut(data)), 'steps': stps + [['snap', ALL], ['src']]}
                ref = None
            elif mode == 'split':
                j = {'op': 'req', 'src': src(data, cut(data)), 'steps': [['header'], ['parse_body'], ['snap', ALL]]}
                ref = {'op': 'req', 'src': src(data, cut(data)), 'steps': [['parse'], ['snap', ALL]]}
            else:
                j = {'op': 'req', 'src': src(data, cut(data)), 'steps': [['parse_body']] * rng.randint(1, 2) + fresh}
                ref = {'op': 'req', 'src': src(data, cut(data)), 'steps': fresh}
            for q in (j, ref):
                if q:
                    q.update(settings=st, handlers=hs, updir='up')
            x['n'] = len(fresh)
            yield Case({'op': 'multi', 'jobs': [q for q in (j, ref) if q]}, x, tags)

    def judge(self, c, res):
        x = c.x
        mode = x['mode']
        a = outcome(res['results'][0]['steps'])
        stps = c.job['jobs'][0]['steps']
        exc = lambda v: isinstance(v, dict) and 'exc' in v
        if mode == 'again':
            if exc(a[0]):
                return []       # (what is left of a failed parse is nobody's business)
            if any(exc(v) for v in a):
                return [Problem('parsing again fails: %r' % [v for v in a if exc(v)], 'again')]
            self.note(a[1])
            if a[1] != a[-2]:
                return [Problem('parsing again changes %s to %s' % (repr(a[1])[:800], repr(a[-2])[:800]), 'again')]
            return []
        f = outcome(res['results'][1]['steps'])
        ps = []
        if mode == 'split':
            if exc(a[0]):
                if not exc(f[0]) or f[0]['exc'] != a[0]['exc'] or f[0]['msg'] != a[0]['msg']:
                    ps.append(Problem('parse() gives %r, parse_request_header() %r' % (f[0], a[0]), 'split'))
                return ps
            self.note(f[1])
            if a[1] != f[0] or a[2] != f[1]:
                ps.append(Problem('parse() gives %s, in two steps %s' % (repr(f)[:800], repr(a)[:800]), 'split'))
            return ps
        if mode == 'body-first':
            n = len(stps) - x['n']
            for v in a[:n]:
                if not exc(v) or v['exc'] != 'RequestHeaderParseException':
                    ps.append(Problem('parsing the body before the head gives %r' % (v,), 'body-first'))
            a = a[n:]
            if a != f:
                ps.append(Problem('after that it reports %s instead of %s' % (repr(a)[:800], repr(f)[:800]), 'body-first-then'))
            self.note(f[-1])
            return ps
        if mode == 'stream':
            k = max(i for i, s in enumerate(stps) if s[0] == 'stream')
            if any(exc(v) for v in a[:k]):
                self.seen('after failure')
            if exc(a[k]):
                ps.append(Problem('setting the stream fails: %r' % a[k], 'set'))
            a = a[k + 1:]
            if exc(f[0]):
                self.seen('new request fails')
                if f[0]['exc'] in DOC_HEAD or True:
                    # POST and FILES stay until a body is parsed; what a failed head leaves otherwise is that of a fresh object
                    head_failed = f[0]['exc'] in ('InvalidHttpRequest', 'NoHostFoundException') or f[0]['exc'] == 'TooManyFieldsSent'
                    if head_failed:
                        for l in (a, f):
                            for i, s in enumerate(l):
                                if isinstance(s, dict):
                                    l[i] = dict((k_, v) for k_, v in s.items() if k_ not in ('POST', 'FILES', 'POST_cls'))
            if not ps and a != f:
                ps.append(Problem('a reused object reports %s, a fresh one %s' % (repr(a)[:900], repr(f)[:900]), 'stream'))
            self.note(f[-1])
            return ps
        # body_stream
        if exc(f[0]):
            return []
        n = x['n']
        a, f = a[-n:], f[-n:]
        if a != f:
            ps.append(Problem('with a new body stream it reports %s, a fresh object %s' % (repr(a)[:900], repr(f)[:900]), 'body_stream'))
        self.note(f[-1])
        return ps

    def note(self, s):
        if isinstance(s, dict):
            if s.get('FILES'):
                self.seen('files')
            if s.get('POST'):
                self.seen('POST')
