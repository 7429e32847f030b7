from .common import *
from .h04 import mutate
from . import b01


def random_request(rng, large=0):
    """Returns (data, settings, handlers, hot spots, tag): any request, valid or not"""
    st, hs = {}, None
    kind = gen.pick(rng, [(2, 'head'), (2, 'badhead'), (2, 'form'), (2, 'plain'), (5, 'multipart'), (5, 'badmultipart'), (2, 'cut-multipart')])
    if kind in ('head', 'badhead'):
        head, m = gen.gen_head(rng, bad=0.2, allow_nohost=True, large=large, large_hi=20000)
        if kind == 'badhead':
            for _ in range(rng.randint(1, 3)):
                head = mutate(rng, head)
        data = head + body_decoys(rng)
        hot = [len(head) - 2, len(head)]
    elif kind in ('form', 'plain'):
        cs = rng.choice(sorted(b01.CHARSETS))
        body, _ = b01.pairs(rng, cs, True, False)
        if rng.random() < 0.3:
            body = rng.randbytes(rng.randint(0, 200))
        if rng.random() < 0.1:
            body = body * rng.randint(1, 300)
        if rng.random() < large and body:
            body = (body + b'&') * gen.large(rng, 100, 2000)
            body = body[:6000 if kind == 'form' and b'%' in body else 200000]     # (decoding is slow)
        ct = b'application/x-www-form-urlencoded' if kind == 'form' else b'text/plain'
        head = b'POST /a?b=c HTTP/1.1\r\nHost: a.com\r\nContent-Type: ' + ct + b'; charset=' + cs.encode() + b'\r\n\r\n'
        data = head + body
        hot = [len(head)]
        if rng.random() < 0.3:
            st['DATA_UPLOAD_MAX_FIELDS'] = rng.randint(1, 5)
        if rng.random() < 0.3:
            st['DATA_UPLOAD_MAX_MEMORY'] = max(0, len(body) + rng.randint(-2, 2))
    else:
        head, body, m = gen.multipart(rng, fields=(0, 3), files=(0, 3), bad=(0, 2), big=0.004, large=large)
        hot = gen.hot_spots(head, m)
        if kind == 'badmultipart':
            k = rng.random()
            if k < 0.4:
                body = mutate_body(rng, body, m)
            elif k < 0.8:
                for _ in range(rng.randint(1, 3)):
                    body = mutate(rng, body)
            else:
                head = mutate(rng, head)
        elif kind == 'cut-multipart':
            at = rng.choice(hot) - len(head) + rng.randint(-4, 4) if rng.random() < 0.6 else rng.randint(0, len(body))
            body = body[:max(0, at)]
        data = head + body
        hs = rng.choice([['conv'], ['conv'], ['mem'], ['temp'], ['mem', 'temp']])
        if rng.random() < 0.5:
            st['FILE_UPLOAD_MAX_MEMORY'] = rng.choice([0, 1, 10, 100, 1000])
        if rng.random() < 0.2:
            st['DATA_UPLOAD_MAX_FIELDS'] = rng.randint(1, 3)
        if rng.random() < 0.2:
            st['DATA_UPLOAD_MAX_MEMORY'] = rng.choice([0, 1, 5, 20, 50, 100, 200])
    return data, st, hs, hot, kind


def mutate_body(rng, body, m):
    """structural damage: delimiters, line ends and part headers duplicated, dropped, truncated"""
    delim = b'--' + m['boundary'].encode()
    for _ in range(rng.randint(1, 4)):
        at = rng.choice(m['pos'] + [x for s in m['spans'] for x in s]) + rng.choice([0, 0, 0, 2, 4, len(delim), len(delim) + 2, -2]) if rng.random() < 0.7 else rng.randint(0, len(body))
        at = min(max(at, 0), len(body))
        k = rng.randrange(5)
        ins = rng.choice([delim, delim + b'--', b'\r\n' + delim, delim + b'\r\n', b'\r\n', b'\n', b'\r', b'\r\n\r\n', b'--', delim[:-1], b'=', b'!!', b'Content-Disposition: form-data; name="q"',
                          b'Content-Disposition: form-data; name="q"; filename="w"\r\nContent-Transfer-Encoding: base64\r\n\r\n', b'X' * 1100, delim + delim, b'\x00\xff', b' ' * 30])
        if k < 3:
            body = body[:at] + ins + body[at:]
        elif k == 3:
            body = body[:at] + body[at + rng.choice([1, 2, 4, len(delim), len(delim) + 2, 20]):]
        else:
            body = body[:at] + body[max(0, at - rng.randint(0, 100)):]
    return body


def outcome(stps):
    """what does not depend on where the files are"""
    def clean(v):
        if isinstance(v, dict):
            return dict((k, clean(x)) for k, x in v.items() if k not in ('path', 'pos', 'tb'))
        if isinstance(v, list):
            return [clean(x) for x in v]
        return v
    out = []
    for s in stps:
        s = clean(s)
        if isinstance(s, dict) and 'exc' in s:
            s = {'exc': s['exc'], 'msg': s.get('msg')}
        if isinstance(s, dict):
            for k in ('POST', 'FILES', 'GET', 'headers'):
                if isinstance(s.get(k), list):
                    s[k] = sorted(s[k], key=repr)
        out.append(s)
    return out


class CHECK(Check):
    id = 'D01'
    n = 420
    thorough = 14
    rule = ('one request (valid, malformed, limited or cut) parsed under seven deliveries (chunkings of the source, head read size, handler chunk size); all '
            'outcomes are compared with each other; distinct by bytes and deliveries')
    required = ('head', 'badhead', 'form', 'plain', 'multipart', 'badmultipart', 'cut-multipart', 'outcome:ok', 'outcome:InvalidHttpRequest', 'outcome:MultiPartParserError',
                'outcome:RequestDataTooBig', 'outcome:TooManyFieldsSent', 'bytewise', 'empty-chunks', 'chunk-size-1', 'files', 'large')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            data, st, hs, hot, kind = random_request(rng, 0.02)
            tags = [kind] + ['large'] * (len(data) > 20000)
            if rng.random() < 0.75:
                stps = [['parse'], ['snap', ['meta', 'get', 'data']]]
            elif rng.random() < 0.5:
                stps = [['header'], ['snap', ['meta', 'get']], ['body'], ['parse_body'], ['snap', ['data']]]
            else:
                stps = [['header'], ['parse_body'], ['snap', ['meta', 'data']], ['body']]
            vs = [{'cuts': None}]
            small = len(data) < 1500
            for j in range(6):
                v = {'cuts': gen.cuts(rng, len(data), rng.sample(hot, min(6, len(hot))))}
                if j == 0 and small:
                    v['cuts'] = 1
                    tags.append('bytewise')
                if j == 1:
                    c = sorted(rng.randint(0, len(data)) for _ in range(5))
                    v['cuts'] = sorted(c + c + c[:2] + [0, len(data)])
                    tags.append('empty-chunks')
                if rng.random() < 0.6:
                    v['mhs'] = rng.choice([1, 2, 3, 4, 5, 7, 8, 15, 33, 64, 100, 1000, 4096, 10 ** 6])
                if hs and rng.random() < 0.7:
                    v['chunk_size'] = rng.choice([1, 2, 3, 5, 7, 8, 16, 33, 64, 100] if small else [100, 500]) if rng.random() < 0.7 else rng.choice([1024, 4096, 65536, 65537])
                    if v['chunk_size'] == 1:
                        tags.append('chunk-size-1')
                if len(data) > 20000:
                    for k, lo in (('cuts', 500), ('chunk_size', 4096), ('mhs', 64)):
                        if isinstance(v.get(k), int):
                            v[k] = max(v[k], lo)
                if rng.random() < 0.08:
                    v['io'] = 'bytesio'
                vs.append(v)
            yield Case({'op': 'each', 'base': req(data, stps, None, st, hs, 'up' if hs else None), 'variants': vs}, None, tags)

    def judge(self, c, res):
        outs = [outcome(v) for v in res['variants']]
        if c.job['base']['steps'][-1] == ['body']:
            # what is left of the raw body after a failed parse is nobody's business
            outs = [o[:-1] if isinstance(o[1], dict) and 'exc' in o[1] else o for o in outs]
        first = outs[0][0]
        self.seen('outcome:' + (first['exc'] if isinstance(first, dict) and 'exc' in first else 'ok'))
        if any(isinstance(s, dict) and s.get('FILES') for s in outs[0]):
            self.seen('files')
        for v, o in zip(c.job['variants'], outs):
            if o != outs[0]:
                return [Problem('delivery %r gives %s, but %r gives %s' % (c.job['variants'][0], repr(outs[0])[:700], v, repr(o)[:700]), 'delivery')]
        return []

    def sample(self, c, res):
        from core import shorten
        return {'job': shorten(c.job), 'observed': shorten(res['variants'][0])}
