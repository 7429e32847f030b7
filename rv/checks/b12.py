from .common import *
from .d01 import random_request, mutate_body
from .h04 import mutate
import base64


def bad_part(rng, delim):
    k = rng.random()
    if k < 0.5:
        return gen.gen_bad_part(rng, delim)
    p = {'kind': 'bad', 'name': None, 'filename': None, 'data': gen.gen_data(rng, delim, None, 0.02)}
    p['wire'] = p['data']
    good = b'Content-Disposition: form-data; name="evil"'
    p['head'] = rng.choice([
        # headers that do not end where they can be read
        b'X-Long: ' + b'y' * rng.randint(1020, 2500) + b'\r\n' + good,
        good + b'; x="' + b'z' * rng.randint(1000, 1300) + b'"',
        # no name
        b'Content-Disposition: form-data; Name1="a"; filename="x"', b'Content-Disposition: "form-data; name=evil"', b'Content-Disposition: form-data name="evil"',
        b'Content-Disposition: name="evil"', b'Content-Disposition:', b'Content-Disposition: form-data; name',
        # no disposition
        b'Content-Dispositio: form-data; name="evil"', b'Content-Type: multipart/form-data; name="evil"; filename="x"', b'Content-Type: text/plain; name="evil"', b'X: y\r\nZ: w',
        # a file without a usable name
        b'Content-Disposition: form-data; name="evil"; filename="/"', b'Content-Disposition: form-data; name="evil"; filename=".."', b'Content-Disposition: form-data; name="evil"; filename="a/b/"',
        b'Content-Disposition: form-data; name="evil"; filename="\\\\"'])
    return p


BAD_HEADS = [b'multipart/form-data', b'multipart/form-data;', b'multipart/form-data; boundary', b'multipart/form-data; boundary=', b'multipart/form-data; boundary=""', b'multipart/form-data; boundary="abc "',
             b'multipart/form-data; boundary="abc\x01d"', b'multipart/form-data; boundary=' + b'x' * 202, b'multipart/form-data; x=y', b'multipart/form-data; Boundaries=abc', b'MULTIPART/FORM-DATA; charset=utf-8',
             b'multipart/form-data; boundary="a\nb"', b'multipart/form-data; boundary="\\""; boundary="x\x7f"', b'multipart/form-data; boundary=" "', b'multipart/form-data; boundary*=x', b'multipart/form-data boundary=abc']
# (these have a boundary after all)
BAD_HEADS = [h for h in BAD_HEADS if not h.endswith((b'boundary*=x', b' boundary=abc'))]


def broken_base64(rng):
    good = base64.b64encode(rng.randbytes(rng.choice([1, 2, 3, 4, 5, 6, 30, 31, 32, 300, 4000])))
    k = rng.randrange(5)
    if k == 0:
        s = good.rstrip(b'=')
        s = s[:len(s) - len(s) % 4] + b'QUJDREVG'[:rng.choice([1, 2, 3])]
    elif k == 1:
        s = good[:-1]
    elif k == 2:
        s = b'QQ==' + good
    elif k == 3:
        s = b'QUI=' + good
    else:
        s = good + b'A'
    out = bytearray()
    if k in (2, 3) and rng.random() < 0.5:
        # chunks without any of the characters, in the middle
        s = s[:4] + rng.choice([b' ', b'\r\n', b'\t', b'!']) * rng.choice([12, 70, 300, 3000]) + s[4:]
    for c in s:
        if rng.random() < 0.1 and len(s) < 2000:
            out += rng.choice([b'\r\n', b' ', b'\n', b'!', b'-', b'\x00'])
        out.append(c)
    return bytes(out)


class CHECK(Check):
    id = 'B12'
    warm = 0.06
    n = 2300
    rule = ('one multipart request that is malformed as a whole, has malformed parts among good ones, or is randomly damaged, in a random delivery; the error, or the reported parts, are compared with what '
            'the request was made of; distinct by bytes and delivery')
    required = ('boundary', 'length', 'base64', 'bad-parts', 'random', 'long headers', 'refused', 'outcome:ok', 'outcome:MultiPartParserError', 'outcome:RequestDataTooBig', 'outcome:TooManyFieldsSent',
                'good parts around', 'many bad parts', 'large', 'reported in spite of damage')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            kind = gen.pick(rng, [(2, 'boundary'), (1, 'length'), (2.5, 'base64'), (6, 'bad-parts'), (5, 'random')])
            tags = [kind]
            x = {'kind': kind}
            st, hs = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 0, 20, 10 ** 6])}, rng.choice([['conv'], ['conv'], ['temp'], ['mem', 'temp']])
            hot = []
            if kind == 'random':
                while True:
                    data, st, hs, hot, k = random_request(rng)
                    if 'multipart' in k:
                        break
            elif kind == 'boundary':
                head, body, m = gen.multipart(rng, boundary='abc', big=0.0)
                ct = rng.choice(BAD_HEADS)
                head = b'POST / HTTP/1.1\r\nHost: a\r\nContent-Type: ' + ct + b'\r\nContent-Length: %d\r\n\r\n' % len(body)
                data = head + (body or b'x')
            elif kind == 'length':
                head, body, m = gen.multipart(rng, big=0.0, clen=lambda r, n: r.choice([-1, -5, -n, -2 ** 40]) or -1)
                data = head + (body or b'x')
            else:
                o = {'bad_gen': bad_part} if kind == 'bad-parts' else {}
                head, body, m = gen.multipart(rng, fields=(0, 3), files=(0, 3), bad=(1, 4 if rng.random() < 0.98 else gen.large(rng, 5, 300)) if kind == 'bad-parts' else (0, 1), big=0.005, large=0.01, longs=['fields', 'files', 'field data', 'file data'], **o)
                if sum(p['kind'] == 'bad' for p in m['parts']) > 20:
                    tags.append('many bad parts')
                if m['large']:
                    tags.append('large')
                if kind == 'base64':
                    at = rng.choice(m['pos'])
                    d = b'--' + m['boundary'].encode()
                    bad = broken_base64(rng)
                    if d in bad + b'\r\n--':
                        continue
                    body = body[:at] + d + b'\r\nContent-Disposition: form-data; name="bad"; filename="bad.bin"\r\nContent-Transfer-Encoding: ' + rng.choice([b'base64', b'BASE64', b'Base64']) + b'\r\n\r\n' + \
                        bad + b'\r\n' + body[at:]
                    if body.count(d) != len(m['pos']) + 1:
                        continue
                hot = gen.hot_spots(head, m)
                data = head + body
                x['parts'] = m['parts']
                if any(len(p['head']) > 1016 for p in m['parts']):
                    tags.append('long headers')
                if kind == 'bad-parts' and any(p['kind'] in ('field', 'file') for p in m['parts']):
                    tags.append('good parts around')
            if hs and rng.random() < 0.5:
                cs = rng.choice([1, 2, 3, 5, 7, 16, 64, 100, 1024, 65536] if len(data) < 3000 else [1024, 4096, 65536])
                hs = [{'builtin': h, 'chunk_size': cs} for h in hs]
            cuts = gen.cuts(rng, len(data), rng.sample(hot, min(4, len(hot))))
            if len(data) > 20000 and isinstance(cuts, int):
                cuts = max(cuts, 512)
            yield Case(req(data, [['header'], ['parse_body'], ['snap', ['data']], ['close'], ['ls']], cuts, st, hs, 'up'), x, tags)

    def judge(self, c, res):
        r = steps(res)
        x = c.x
        kind = x['kind']
        ps = []
        if is_exc(r[0]):
            if kind == 'random':
                return [] if is_exc(r[0], *DOC_HEAD) else [Problem('the head fails with %r' % r[0], 'head')]
            return [Problem('the head is refused: %r' % r[0], 'head')]
        if is_exc(r[2]):
            return [Problem('POST and FILES cannot be read: %r' % r[2], 'unreadable')]
        self.seen('outcome:' + (r[1].name if is_exc(r[1]) else 'ok'))
        if is_exc(r[1]):
            self.seen('refused')
            if not is_exc(r[1], *DOC_BODY):
                ps.append(Problem('fails with %r' % r[1], 'error'))
            if r[2]['POST'] or r[2]['FILES']:
                ps.append(Problem('after %r POST is %r and FILES %r' % (r[1], r[2]['POST'], r[2]['FILES']), 'reported'))
        if kind in ('boundary', 'length', 'base64'):
            if not is_exc(r[1], 'MultiPartParserError'):
                ps.append(Problem('%s: not refused with MultiPartParserError but %r' % (kind, r[1]), 'not-refused'))
        elif kind == 'bad-parts':
            if is_exc(r[1]):
                return ps + [Problem('a bad part makes the request fail with %r' % r[1], 'refused')]
            check_post(ps, r[2]['POST'], gen.want_post(x['parts']))
            check_files(ps, r[2]['FILES'], x['parts'])
        elif not is_exc(r[1]) and (r[2]['POST'] or r[2]['FILES']):
            self.seen('reported in spite of damage')
        if is_exc(r[3]):
            ps.append(Problem('close() fails with %r' % r[3], 'close'))
        elif any(l for _, l in r[4]):
            ps.append(Problem('files are left: %r' % r[4], 'left'))
        return ps
