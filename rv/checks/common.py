"""What several checks share."""
from core import Check, Case, Problem, Exc, b, dec, norm, lists_equal, L
import gen


def settings(**k):
    return k


DOC_HEAD = ('InvalidHttpRequest', 'NoHostFoundException', 'TooManyFieldsSent')
DOC_BODY = ('MultiPartParserError', 'RequestDataTooBig', 'TooManyFieldsSent', 'SuspiciousMultipartForm')


def steps(res):
    return [dec(s) for s in res['steps']]


def is_exc(v, *names):
    return isinstance(v, Exc) and (not names or v.isa(*names))


def src(data, cuts=None, **k):
    d = {'data': b(data), 'cuts': cuts}
    d.update(k)
    return d


def req(data, stps, cuts=None, settings=None, handlers=None, updir=None, **k):
    j = {'op': 'req', 'src': src(data, cuts), 'steps': stps}
    if settings:
        j['settings'] = settings
    if handlers is not None:
        j['handlers'] = handlers
    if updir:
        j['updir'] = updir
    j.update(k)
    return j


def differs(ps, what, got, want, key=None):
    w = norm(want)
    if got != w or isinstance(got, bool) != isinstance(w, bool):
        ps.append(Problem('%s: got %r, expected %r' % (what, got, w), key or what))


def body_decoys(rng):
    return rng.choice([b'', b'', b'x', b'GET /evil?x=1 HTTP/1.1\r\nHost: evil.com\r\n\r\n', b'\r\n', b'\r\n\r\n', b'Host: evil\r\n',
                       b'X-A: evil\r\n\r\nmore', b'a=b&c=d', bytes(rng.randrange(256) for _ in range(rng.randint(1, 60)))])


class HeadCheck(Check):
    n = 2200
    warm = 0.04
    what = ['meta', 'get']

    def options(self, rng):
        return {}

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            head, m = gen.gen_head(rng, **self.options(rng))
            data = head + body_decoys(rng)
            hot = [m['target'].find('?') + len(m['method']) + 1, len(head), len(head) - 2]
            st = {}
            if rng.random() < 0.5:
                st['MAX_HEADER_SIZE'] = max(len(head) // 400, rng.choice([1, 2, 3, 4, 5, 7, 15, 16, 17, 64, len(head) - 1, len(head), len(head) + 1, 4096]))
            extra = {}
            if rng.random() < 0.15 and all(x < 128 for x in data):
                # everything above must be the same after the body was parsed too
                stps = [['parse'], ['snap', self.what]]
            else:
                stps = [['header'], ['snap', self.what]]
            yield Case(req(data, stps, gen.cuts(rng, len(data), hot), st, **extra), m, ['target:' + m['form']] + (['large ' + m['large']] if m['large'] else []))

    def judge(self, c, res):
        r = steps(res)
        m = c.x
        if is_exc(r[0]):
            if m['hostsrc'] is None and is_exc(r[0], 'NoHostFoundException'):
                self.seen('nohost')
                return self.judge_nohost(m)
            return [Problem('a well-formed head is refused: %r' % r[0], 'refused')]
        if m['hostsrc'] is None:
            return self.judge_hostless_accepted(m)
        if is_exc(r[1]) or not isinstance(r[1], dict):
            return [Problem('the metadata cannot be read: %r' % (r[1],), 'unreadable')]
        return self.check(m, r[1])

    def judge_nohost(self, m):
        return []

    def judge_hostless_accepted(self, m):
        return []


ALLH = ['conv', 'mem', 'temp', ['mem', 'temp']]


def gen_handlers(rng, sized=True):
    """(handlers of a job, names)"""
    h = rng.choice(['conv', 'conv', 'conv', 'mem', 'temp', 'mem+temp'])
    names = h.split('+')
    if sized and rng.random() < 0.5:
        cs = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 1000, 4096, 65536, 65537])
        return [{'builtin': n, 'chunk_size': cs} for n in names], h
    return (None if h == 'conv' and rng.random() < 0.5 else names), h


def check_files(ps, got, parts, place=None, updir=None, tag='files'):
    """got: decoded FILES of a snapshot; parts: the file parts, in order. place(i, part) -> 'mem', 'disk' or None (either)"""
    want = gen.want_files(parts)
    if not isinstance(got, list):
        ps.append(Problem('FILES cannot be read: %r' % (got,), tag))
        return []
    g = dict((k, v) for k, v in got)
    w = dict((norm(k), v) for k, v in want)
    if set(g) != set(w) or len(g) != len(got):
        ps.append(Problem('FILES has %r instead of %r' % (sorted(g, key=repr), sorted(w, key=repr)), tag + '-names'))
        return []
    order = [p for p in parts if p['kind'] == 'file']
    infos = []
    for k in w:
        if len(g[k]) != len(w[k]):
            ps.append(Problem('%d files under %r instead of %d' % (len(g[k]), k, len(w[k])), tag + '-number'))
            continue
        for f, p in zip(g[k], w[k]):
            i = [j for j, q in enumerate(order) if q is p][0]
            check_file(ps, f, p, place(i, p) if place else None, tag)
            infos.append(f)
    return infos


def check_file(ps, f, p, place, tag='file'):
    if not isinstance(f, dict) or 'label' in f:
        ps.append(Problem('%r is not an uploaded file' % (f,), tag))
        return
    for a, e in (('name', p['filename']), ('size', len(p['data'])), ('content_type', p['ctype']), ('charset', p['extra'].get('charset')),
                 ('content_type_extra', p['extra']), ('transfer_encoding', p['te']), ('data', p['data'])):
        if f.get(a) != norm(e):
            ps.append(Problem('%s of file %r is %r, expected %r' % (a, p['filename'], f.get(a), norm(e)), '%s-%s' % (tag, a)))
    if f.get('closed') is not False:
        ps.append(Problem('file %r is closed' % p['filename'], tag + '-closed'))
    if 'path' in f:
        if not f['exists'] or f.get('disk') != norm(p['data']):
            ps.append(Problem('the file behind %r on disk: exists %r, has %r' % (p['filename'], f['exists'], f.get('disk')), tag + '-disk'))
    if place is not None and ('path' in f) != (place == 'disk'):
        ps.append(Problem('file %r of %d bytes is %s' % (p['filename'], len(p['data']), 'on disk' if 'path' in f else 'in memory'), tag + '-place'))


def check_post(ps, got, want, tag='POST'):
    if not lists_equal(got, want):
        ps.append(Problem('%s is %s, expected %s' % (tag, repr(got)[:900], repr([[norm(k), [norm(x) for x in v]] for k, v in want])[:900]), tag))


def dirs_of(ls):
    return dict((n, l) for n, l in ls) if isinstance(ls, list) else {}
