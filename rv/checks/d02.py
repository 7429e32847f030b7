from .common import *
from . import b01


def lines_of(d):
    out = []
    while d:
        i = d.find(b'\n') + 1 or len(d)
        out.append(d[:i])
        d = d[i:]
    return out


def gen_body(rng):
    k = rng.random()
    if k < 0.1:
        return b''
    if k < 0.5:
        return b''.join(rng.choice([b'\n', b'\r\n', b'\r', b'\n\n', gen.word(rng, gen.LETTERS, 1, 8).encode(), b'a=b&', rng.randbytes(3), b'\x00', b' ']) for _ in range(rng.randint(1, 30)))
    if k < 0.7:
        return rng.randbytes(rng.randint(1, 400))
    if k < 0.8:
        return b'\r\n\r\n' + gen.word(rng, gen.LETTERS + '\r\n', 0, 40).encode()
    if k < 0.9:
        return gen.word(rng, gen.LETTERS + '\n', 1000, 5000).encode()
    if k < 0.91:
        n = gen.large(rng, 5000, 1 << 20)
        return rng.choice([lambda: rng.randbytes(n), lambda: b'x' * n + b'\ny', lambda: b''.join(b'%d\n' % i for i in range(n // 8))])()
    return rng.choice([b'x' * 70000, b'line\n' * 30000, rng.randbytes(66000), b'a' * 65536, b'a' * 65537, b'\n' * 100])


class CHECK(Check):
    id = 'D02'
    n = 1600
    rule = ('one request, a random sequence of read/readline/iterate/body/parse calls in a random delivery; the pieces are compared with the body, in order; distinct by '
            'bytes, delivery and sequence')
    required = ('plain', 'form', 'multipart', 'read', 'readline', 'iter', 'body-first', 'body-after-plain', 'body-after-form', 'empty', 'big', 'read-to-end', 'parse-after-body', 'read-after-body', 'huge',
                'charset')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            kind = rng.choice(['plain', 'plain', 'form', 'multipart'])
            tags = [kind]
            x = {'kind': kind}
            cs = 'iso-8859-1'
            st, hs = {}, None
            if kind == 'multipart':
                head, body, m = gen.multipart(rng, fields=(0, 2), files=(0, 2), bad=(0, 1), big=0.01, large=0.01)
                x['parts'] = m['parts']
                hs = ['conv']
            else:
                body = gen_body(rng)
                ct = 'application/x-www-form-urlencoded' if kind == 'form' else rng.choice(['text/plain', 'application/json', 'text/html', ''])
                if kind == 'form':
                    body, x['pairs'] = b01.pairs(rng, 'utf-8', False, False)
                    cs = 'utf-8'
                    ct += '; charset=utf-8'
                elif rng.random() < 0.4:
                    cs = rng.choice(['utf-8', 'koi8-r', 'windows-1252', 'iso-8859-15', 'ascii'])
                    body = ''.join(rng.choice(b01.CHARSETS[cs].replace('\U0001F600', '') + 'abc\r\n =&') for _ in range(rng.randint(0, 60))).encode(cs)
                    ct += '; charset=' + cs
                    tags.append('charset')
                head = b'POST /a HTTP/1.1\r\nHost: a.com\r\nContent-Type: ' + ct.encode() + b'\r\n' + (b'Content-Length: %d\r\n' % len(body) if rng.random() < 0.5 else b'') + b'\r\n'
            st['DATA_UPLOAD_MAX_MEMORY'] = rng.choice([None, max(10 ** 7, len(body)), max(2 * 10 ** 6, len(body))])
            if not body:
                tags.append('empty')
            if len(body) > 60000:
                tags.append('big')
            if len(body) > 200000:
                tags.append('huge')
            if rng.random() < 0.3:
                st['MAX_HEADER_SIZE'] = rng.choice([1, 7, 64, len(head), len(head) + 5, 65536, 10 ** 6])
            ops = [['header']]
            small = len(body) < 3000
            if rng.random() < 0.4:
                ops.append(['body'])
                tags.append('body-first')
                if rng.random() < 0.3:
                    ops.append(['body'])
                if rng.random() < 0.1:
                    ops = ops[1:]      # body() parses the head itself
            if rng.random() < 0.55:
                for _ in range(rng.randint(1, 12)):
                    o = gen.pick(rng, [(4, ['read', rng.choice([0, 1, 2, 3, 5, 10, 64, 1000, len(body), len(body) + 1, 65536, max(1, len(body) - 1)])]), (3, ['readline']), (2, ['iter', rng.randint(1, 4)]),
                                       (0.4, ['read']), (0.3, ['readlines'] if small else ['readline']), (0.2, ['xreadlines'] if small else ['readline']), (1, ['readline', rng.choice([0, 1, 2, 7, 100])])])
                    ops.append(o)
                    tags.append(o[0])
                if 'body-first' in tags:
                    tags.append('read-after-body')
                if rng.random() < 0.5:
                    ops.append(['read'])
                    ops.append(['read'])
                    ops.append(['read', 5])
                    ops.append(['readline'])
                    tags.append('read-to-end')
            else:
                ops.append(['parse_body'])
                ops.append(['snap', ['data']])
                ops.append(['body'])
                tags.append('body-after-plain' if kind == 'plain' else 'body-after-form')
                if 'body-first' in tags:
                    tags.append('parse-after-body')
            data = head + body
            hot = [len(head), len(head) - 1, len(head) + 1, len(head) + len(body) // 2]
            cuts = gen.cuts(rng, len(data), hot)
            if len(data) > 20000 and isinstance(cuts, int):
                cuts = max(cuts, 512)
            x.update(body=body, cs=cs)
            j = req(data, ops, cuts, st, hs, 'up' if hs else None)
            if rng.random() < 0.05:
                j['src']['io'] = 'bytesio'
            yield Case(j, x, tags)

    def judge(self, c, res):
        r = steps(res)
        x = c.x
        body = x['body']
        pos = 0
        parsed = False
        for st, v in zip(c.job['steps'], r):
            op = st[0]
            rest = body[pos:]
            if op == 'body':
                if parsed and body and x['kind'] != 'plain':
                    if not is_exc(v, 'RawPostDataException'):
                        return [Problem('body() after a form was parsed gives %r' % (v,), 'body-after-form')]
                    continue
                if parsed and not body:
                    want = b''
                else:
                    want = body.decode(x['cs']) if parsed else body
            elif op == 'read':
                want = rest[:st[1]] if len(st) > 1 else rest
                pos += len(want)
            elif op == 'readline':
                want = lines_of(rest)[0] if rest else b''
                if len(st) > 1:
                    want = want[:st[1]]
                pos += len(want)
            elif op == 'iter':
                want = lines_of(rest)[:st[1]]
                pos += sum(map(len, want))
            elif op in ('readlines', 'xreadlines'):
                want = lines_of(rest)
                pos = len(body)
            elif op == 'snap':
                if is_exc(v):
                    return [Problem('unreadable after parsing: %r' % v, 'unreadable')]
                ps = []
                if x['kind'] == 'multipart':
                    check_post(ps, v['POST'], gen.want_post(x['parts']))
                    check_files(ps, v['FILES'], x['parts'])
                else:
                    check_post(ps, v['POST'], gen.group(x['pairs']) if x['kind'] == 'form' else [])
                if ps:
                    return ps
                continue
            else:
                want = None
                if op == 'parse_body':
                    parsed = True
            if is_exc(v):
                return [Problem('%s fails with %r' % (st, v), 'error-' + op)]
            if v != norm(want):
                return [Problem('%s at offset %d of the body gives %r, expected %r' % (st, pos, shorten(v), shorten(norm(want))), 'bytes-' + op)]
        return []


from core import shorten  # noqa
