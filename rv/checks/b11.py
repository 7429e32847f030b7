import io
import re

from .common import *
from core import shorten


def lines_of(d):
    return re.findall(rb'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', d)


def gen_content(rng):
    k = rng.random()
    if k < 0.08:
        return b''
    if k < 0.6:
        return b''.join(rng.choice([b'\n', b'\r\n', b'\r', b'\r\r\n', b'\n\r', gen.word(rng, gen.LETTERS, 1, 6).encode(), rng.randbytes(2), b'\x00', b'\x0b', b'\x0c', b'\x1c\x85']) for _ in range(rng.randint(1, 25)))
    if k < 0.85:
        return rng.randbytes(rng.randint(1, 300))
    if k < 0.86:
        # many lines, or one long one
        n = gen.large(rng, 5000, 400000)
        return b''.join(b'%d%s' % (i, rng.choice([b'\n', b'\r\n', b'\r'])) for i in range(n // 8)) if rng.random() < 0.6 else b'x' * n + b'\nend'
    # line ends across the border of the chunks that iteration reads
    n = 65536 + rng.choice([-2, -1, 0, 1])
    return b'a' * (n - 3) + b'\r\n'[:rng.randint(0, 2)] + rng.choice([b'', b'\n', b'\r', b'\r\n', b'x']) + rng.choice([b'', b'\n', b'\nb\r', b'\r\nc', b'tail\n' * 3]) + (b'z' * 65536 if rng.random() < 0.2 else b'')


def gen_ops(rng, n):
    ops = []
    for _ in range(rng.randint(1, 14)):
        ops.append(gen.pick(rng, [
            (3, ['read', rng.choice([0, 1, 2, 5, 10, 100, n, n + 1, 65536])]), (2, ['read']), (2, ['seek', rng.choice([0, 1, n // 2, n, n + 5, rng.randint(0, n + 1)])]),
            (0.7, ['seek', rng.choice([0, -n, -(n // 2)]), 2]), (2, ['tell']), (2, ['readline']), (0.6, ['readline', rng.choice([0, 1, 3, 100])]), (2, ['chunks', rng.choice([None, 1, 2, 3, 7, 64, 1000, n, n + 1]) if n < 2000 else rng.choice([None, 1000, 65536, 65537, n])]),
            (2, ['lines']), (1, ['multiple', rng.choice([None, 1, n, max(1, n - 1), 64])]), (1, ['size']), (1, ['len']), (0.6, ['open']), (0.6, ['open', 'rb']), (0.6, ['readlines']), (0.5, ['closed']), (0.5, ['bool']), (0.5, ['name']),
            (0.35, ['close']), (0.15, ['with'])]))
    if n < 2000 and rng.random() < 0.35:
        # pieces so small that line ends are split between them
        ops.insert(0, ['chunksize', rng.choice([1, 2, 3, 5, 8])])
        ops.insert(rng.randint(1, len(ops)), ['lines'])
    if rng.random() < 0.3:
        ops += [['close'], ['closed'], rng.choice([['open'], ['open', 'rb'], ['open', 'w']]), ['closed'], rng.choice([['read'], ['chunks', 5], ['lines'], ['readline'], ['tell']]), ['size'], ['close'], ['closed']]
    return ops


class CHECK(Check):
    id = 'B11'
    n = 2600
    rule = ('a random sequence of operations on one uploaded file (in memory, on disk, from content, or reported by a request), compared with the same operations on a byte buffer; '
            'distinct by content and sequence')
    required = ('mem', 'disk', 'simple', 'dict', 'parsed', 'empty', 'cr-lf at a chunk border', 'closed', 'open after close', 'lines', 'chunks', 'several chunks', 'decoy', 'small pieces', 'long', 'own type', 'default type')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            kind = rng.choice(['mem', 'disk', 'disk', 'simple', 'dict', 'parsed'])
            data = gen_content(rng)
            ops = gen_ops(rng, len(data))
            name = rng.choice([b'a.txt', b'file', b'x.y.z', b'n'])
            tags = [kind] + [o[0] for o in ops if o[0] in ('lines', 'chunks')]
            if not data:
                tags.append('empty')
            if len(data) > 140000:
                tags.append('long')
            if len(data) > 65530:
                tags.append('cr-lf at a chunk border')
            x = {'data': data, 'kind': kind, 'name': name}
            if kind == 'parsed':
                boundary = b'Xx--Xx'
                if b'--Xx--Xx' in data:
                    continue
                h = rng.choice(['mem', 'temp', 'conv'])
                limit = rng.choice([0, 10 ** 7])
                x['disk'] = h == 'temp' or h == 'conv' and limit < len(data)
                if h == 'mem':
                    limit = 10 ** 7
                body = b'--' + boundary + b'\r\nContent-Disposition: form-data; name="f"; filename="' + name + b'"\r\n\r\n' + data + b'\r\n--' + boundary + b'--\r\n'
                head = b'POST / HTTP/1.1\r\nHost: a\r\nContent-Length: %d\r\nContent-Type: multipart/form-data; boundary=' % len(body) + boundary + b'\r\n\r\n'
                j = req(head + body, [['parse'], ['fileops', 'f', 0, ops]], None if len(data) > 3000 else gen.cuts(rng, len(head + body)), {'FILE_UPLOAD_MAX_MEMORY': limit}, [h], 'up')
            else:
                x['disk'] = kind == 'disk'
                j = {'op': 'fobj', 'kind': kind, 'name': b(name), 'data': b(data), 'ops': ops, 'decoy': rng.random() < 0.5}
                if kind in ('simple', 'dict'):
                    j['ctype'] = rng.choice([[], ['x/y'], ['text/html'], ['']])
                    tags.append('own type' if j['ctype'] else 'default type')
                x['attrs'] = {'mem': ['a/b', 'cs', {'x': 'y'}, '8bit', 'field'], 'disk': ['a/b', 'cs', {'x': 'y'}, '8bit']}.get(kind) or [(j['ctype'] or ['text/plain'])[0], None, None, None, None]
                ops.insert(rng.randint(0, len(ops)), ['attrs', ['content_type', 'charset', 'content_type_extra', 'transfer_encoding', 'field_name'][:len(x['attrs'])]])
                if j['decoy']:
                    tags.append('decoy')
            x['ops'] = ops
            yield Case(j, x, tags)

    def judge(self, c, res):
        x = c.x
        r = steps(res)
        if x['kind'] == 'parsed':
            if is_exc(r[0]) or is_exc(r[1]):
                return [Problem('the upload fails: %r' % r, 'failed')]
            r = r[1]
        f = io.BytesIO(x['data'])
        n = len(x['data'])
        closed = False
        unit = 65536
        ps = []
        for o, v in zip(x['ops'], r):
            op = o[0]
            what = '%s (%s, %d bytes, %s)' % (o, x['kind'], n, x['ops'])
            any_ = False
            want = None
            if op == 'chunksize':
                unit = o[1]
                self.seen('small pieces')
            elif op in ('close', 'with'):
                if op == 'with' and closed:
                    continue
                closed = True
                f.close()
                want = None
            elif op == 'closed':
                want = closed
                self.seen('closed') if closed else None
            elif op in ('size', 'len'):
                want = n
            elif op == 'multiple':
                want = (n > (o[1] or unit)) if x['disk'] else False
            elif op == 'bool':
                want = True
            elif op == 'name':
                want = x['name']
            elif op == 'attrs':
                want = x['attrs']
            elif closed:
                # there is nothing to be read from any more
                if op == 'open':
                    self.seen('open after close')
                if op in ('read', 'readline') and len(o) > 1 and not o[1]:
                    continue    # (Jython's byte buffers give nothing, without an error, when asked for nothing)
                if not is_exc(v):
                    ps.append(Problem('%s on a closed file gives %r' % (what, shorten(v)), 'closed-' + op))
                continue
            elif op == 'open':
                f.seek(0)
                want = True
            elif op == 'seek':
                if len(o) > 2:
                    f.seek(max(0, n + o[1]))
                else:
                    f.seek(o[1])
                any_ = True
            elif op == 'chunks':
                f.seek(0, 2)
                if is_exc(v) or not isinstance(v, list):
                    ps.append(Problem('%s gives %r' % (what, v), 'chunks'))
                    break
                size = o[1] or unit
                want = [x['data'][i:i + size] for i in range(0, n, size)] if x['disk'] else [x['data']]
                if not n and v in ([], ['']):
                    want = v
                if len(want) > 1:
                    self.seen('several chunks')
            elif op == 'lines':
                want = lines_of(x['data'])
                f.seek(0, 2)
            elif op == 'readlines':
                want = f.readlines()
            else:
                want = getattr(f, op)(*o[1:])
            if is_exc(v):
                ps.append(Problem('%s fails with %r' % (what, v), 'error-' + op))
                break
            if not any_ and v != norm(want):
                ps.append(Problem('%s gives %r, expected %r' % (what, shorten(v), shorten(norm(want))), 'value-' + op))
                break
        if not ps and x['kind'] != 'parsed':
            if res['closed'] != closed:
                ps.append(Problem('closed is %r' % res['closed'], 'closed'))
            if x['kind'] == 'disk' and (res['exists'] != (not closed) or res['left'] != [False]):
                ps.append(Problem('the file on disk: exists %r, after close %r' % (res['exists'], res['left']), 'disk'))
        return ps
