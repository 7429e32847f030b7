import io
import re

from .common import *
from core import shorten, L
from .b11 import gen_content, lines_of


def text_lines(t):
    return re.findall('[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', t)


MODES = {'rb': (True, False), 'r+b': (True, True), 'wb': (False, True)}


class CHECK(Check):
    id = 'B14'
    n = 2400
    rule = ('a random sequence of operations on a File around a byte buffer, a file on disk, a reader that only reads (also in pieces shorter than asked for, or that cannot seek) or an object with a size of its own, or on a ContentFile of bytes or text, compared with the same '
            'operations on a buffer; distinct by content, kind, name and sequence')
    required = ('bytesio', 'file', 'reader', 'sized', 'content', 'text', 'empty', 'small pieces', 'lines', 'chunks', 'several chunks', 'reopened', 'closed', 'cannot be reopened', 'write', 'size after write',
                'no size', 'huge', 'short', 'shortseek', 'pipe', 'chunks of short pieces', 'lines of short pieces', 'no name', 'Unicode name', 'with')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            kind = rng.choice(['bytesio', 'file', 'file', 'reader', 'sized', 'content', 'content', 'short', 'shortseek', 'pipe'])
            short = kind.startswith('short')
            reads = kind in ('reader', 'short', 'pipe')
            data = gen_content(rng)
            huge = rng.random() < 0.003
            if huge:
                data = rng.randbytes(gen.large(rng, 3 * 10 ** 5, 1500000) // 4) * 4
            elif len(data) > 2000 and rng.random() < 0.7:
                data = data[-400:]
            tags = [kind] + ['huge'] * huge
            text = kind == 'content' and rng.random() < 0.4
            if text:
                data = ''.join(rng.choice(['\n', '\r\n', '\r', 'a', 'bc', '\xe9', '\u20ac', '\u2028', '\x85', '\x0b']) for _ in range(rng.randint(0, 40)))
                tags.append('text')
            name = rng.choice([None, None, b'a.txt', b'', 'na\xefve.txt', b'r\xe9.txt', b'/no/such/directory/x'])
            mode = rng.choice(list(MODES)) if kind == 'file' else None
            if mode == 'wb':
                data = b''
            n = len(data)
            if not n:
                tags.append('empty')
            if name is None:
                tags.append('no name')
            if isinstance(name, str):
                tags.append('Unicode name')
            ops = []
            unit = 65536
            if rng.random() < 0.5:
                unit = rng.choice([1, 2, 3, 5, 8, 100])
                if n / unit < 2000:
                    ops.append(['chunksize', unit])
                    tags.append('small pieces')
            can_read = mode != 'wb'
            can_write = kind in ('content', 'bytesio') and not text or mode in ('r+b', 'wb')
            piece = lambda: rng.choice(['x', '\xe9\u20ac', 'a\r\nb']) if text else rng.choice([b'x', b'\r\n', b'\xff\x00ab'])
            for _ in range(rng.randint(1, 12 if not huge else 4)):
                o = gen.pick(rng, [
                    (2, ['size']), (1, ['len']), (1, ['bool']), (1, ['name']), (1, ['str']), (0.5, ['closed']), (0.4, ['readable']), (0.4, ['writable']), (0.4, ['seekable']), (1, ['multiple', rng.choice([None, 1, max(1, n - 1), max(n, 1), n + 1])]),
                    (3 * can_read, ['chunks', rng.choice([None, 1, 2, 7, 64, max(n, 1), n + 1]) if n < 2000 else rng.choice([None, 1000, 65536, n])]), (3 * can_read, ['lines']),
                    (2 * (can_read and not short), ['read']), (2 * (can_read and not short), ['read', rng.choice([0, 1, 5, 100, n])]), (1.5 * (can_read and not reads and not short), ['readline']), (1 * (can_read and not reads and not short), ['readlines']),
                    (2 * (not reads), ['seek', rng.choice([0, 1, n // 2, n]) if not text else 0]), (1 * (not reads and not text), ['tell']), (1 * can_write, ['write', None]), (0.6 * (not reads), ['open']), (0.3 * (kind == 'file'), ['open', 'rb']),
                    (0.5 * (not reads), ['close']), (0.3 * (not reads), ['with'])])
                if o[0] == 'write':
                    p = piece()
                    o = ['write', {'u': p} if text else b(p)]
                    ops.append(['seek', rng.choice([0, n, n // 2]) if not text else 0])
                    tags.append('write')
                    ops.append(o)
                    if kind == 'file':
                        # (what is written to a file and read without seeking is not defined)
                        ops.append(['seek', rng.choice([0, n])])
                    continue
                ops.append(o)
                if o[0] in ('close', 'with') and rng.random() < 0.3:
                    ops.append(['open'] if kind != 'file' or rng.random() < 0.5 else ['open', 'rb'])
                tags += [o[0]] if o[0] in ('lines', 'chunks', 'with') else []
            if mode == 'wb' and name is None and rng.random() < 0.5:
                # what was written is read
                ops += [['close'], ['open', 'rb'], ['chunks', None], ['seek', 0], ['read'], ['lines']]
            pieces = [rng.choice([1, 2, 3, 10, 500, 65536]) for _ in range(rng.randint(1, 6))] if n < 3000 else [60000, 20000]
            x = dict(data=data, kind=kind, name=name, mode=mode, ops=ops, text=text)
            yield Case({'op': 'wrapper', 'kind': kind, 'name': None if name is None else {'u': name} if isinstance(name, str) else b(name), 'mode': mode, 'data': {'u': data} if text else b(data), 'ops': ops, 'pieces': pieces}, x, tags)

    def judge(self, c, res):
        x = c.x
        r = steps(res)
        kind, text, mode = x['kind'], x['text'], x['mode']
        enc = (lambda t: t.encode('utf-32-le', 'surrogatepass')) if text else (lambda d: d)
        dec_ = (lambda d: d.decode('utf-32-le', 'surrogatepass')) if text else (lambda d: d)
        k = 4 if text else 1
        reads = kind in ('reader', 'short', 'pipe')
        f = io.BytesIO(enc(x['data']))
        unit = 65536
        closed = written = computed = False
        can = MODES.get(mode, (True, True))
        name = x['name']
        if name is None and kind == 'file':
            name = dec(res['path'])
        ps = []
        if text:
            from .c01 import je  # noqa
        for o, v in zip(x['ops'], r):
            op = o[0]
            what = '%s (%s %s, name %r, %d long, %s)' % (o, kind, mode or '', name, len(x['data']), x['ops'])
            n = len(f.getvalue()) // k
            want = None
            bad = False
            if op == 'chunksize':
                unit = o[1]
                self.seen('small pieces')
            elif op == 'size' or op == 'len' or op == 'multiple':
                if reads:
                    self.seen('no size')
                    if not is_exc(v, 'AttributeError'):
                        ps.append(Problem('%s without a size gives %r' % (what, v), 'no-size'))
                    continue
                if closed and not (computed or kind == 'file' and x['name'] is None or kind == 'sized'):
                    if kind == 'file':
                        # the file object knows its name
                        computed = True
                    else:
                        continue
                if kind == 'content' and written:
                    self.seen('size after write')
                elif kind == 'sized':
                    n = len(x['data'])
                elif written and (kind != 'content' or text):
                    # (positions in a text buffer are not characters in Jython; otherwise computed once; and a file on disk gets what was written when it is flushed)
                    continue
                computed = True
                want = n > (o[1] or unit) if op == 'multiple' else n
            elif op == 'bool':
                want = kind == 'content' or bool(name)
            elif op == 'name':
                want = name
            elif op == 'str':
                want = 'Raw content' if kind == 'content' else '' if not name else name.encode('utf-8') if isinstance(name, str) else name
            elif op == 'closed':
                want = closed
                if reads:
                    continue
            elif op in ('readable', 'writable', 'seekable'):
                if reads:
                    continue
                if closed:
                    want = False
                elif kind == 'file':
                    if op == 'seekable':
                        want = True
                    elif op == 'writable' and can[1] and mode == 'r+b':
                        continue        # (the mode of a Python 2 file does not tell)
                    elif op == 'readable' and not can[0]:
                        continue
                    else:
                        want = can[op == 'writable']
                else:
                    want = True
            elif op in ('close', 'with'):
                if op == 'with' and closed:
                    continue
                if kind != 'content':
                    closed = True
            elif op == 'open':
                if closed:
                    if kind == 'file' and x['name'] is None and (len(o) > 1 or mode):
                        if mode == 'wb' and len(o) == 1:
                            f = io.BytesIO()
                        m = o[1] if len(o) > 1 else mode
                        can = MODES[m]
                        closed = False
                        f.seek(0)
                        self.seen('reopened')
                    else:
                        self.seen('cannot be reopened')
                        if not is_exc(v, 'ValueError'):
                            ps.append(Problem('%s opens it again: %r' % (what, v), 'reopen'))
                        continue
                else:
                    f.seek(0)
                want = True
            elif closed:
                self.seen('closed')
                if op in ('read', 'readline') and len(o) > 1 and not o[1]:
                    continue
                if not is_exc(v):
                    ps.append(Problem('%s on a closed file gives %r' % (what, shorten(v)), 'closed-' + op))
                continue
            elif not can[0] and op in ('read', 'readline', 'readlines', 'chunks', 'lines') or not can[1] and op == 'write':
                continue
            elif op == 'seek':
                f.seek(o[1] * k)
                continue
            elif op == 'tell':
                want = f.tell() // k
            elif op == 'write':
                f.write(enc(o[1]['u']) if text else o[1]['b'].encode('latin-1') if 'b' in o[1] else None)
                written = True
                continue
            elif op == 'chunks':
                if reads:
                    d = f.read()
                else:
                    d = f.getvalue()
                    f.seek(0, 2)
                d = dec_(d)
                size = o[1] or unit
                if kind.startswith('short') and isinstance(v, list):
                    # how it is cut depends on the file
                    if any(len(a) > size or not len(a) for a in v):
                        ps.append(Problem('%s gives pieces %r' % (what, shorten(v)), 'pieces'))
                    if all(not isinstance(a, L) for a in v):
                        v, want = norm(b''.join(a.encode('latin-1') if isinstance(a, str) else a for a in v)), d
                        self.seen('chunks of short pieces')
                        if v != norm(want):
                            ps.append(Problem('%s gives %r instead of %r' % (what, shorten(v), shorten(norm(want))), 'short'))
                    continue
                want = [d[i:i + size] for i in range(0, len(d), size)]
                if len(want) > 1:
                    self.seen('several chunks')
            elif op == 'lines':
                if reads:
                    d = f.read()
                else:
                    d = f.getvalue()
                    f.seek(0, 2)
                want = text_lines(dec_(d)) if text else lines_of(d)
                if kind.startswith('short'):
                    self.seen('lines of short pieces')
            elif op in ('readline', 'readlines'):
                if text:
                    # (io.StringIO translates no line ends)
                    d = dec_(f.getvalue())
                    at = f.tell() // k
                    ls = re.findall('[^\n]*\n|[^\n]+', d[at:])
                    want = ls if op == 'readlines' else ls[0] if ls else ''
                    f.seek((at + sum(map(len, ls if op == 'readlines' else ls[:1]))) * k)
                else:
                    want = getattr(f, op)()
            elif op == 'read':
                want = dec_(f.read(*[a * k for a in o[1:]]))
            if is_exc(v):
                ps.append(Problem('%s fails with %r' % (what, v), 'error-' + op))
                break
            if v != norm(want):
                ps.append(Problem('%s gives %r, expected %r' % (what, shorten(v), shorten(norm(want))), 'value-' + op))
                break
        if not ps and kind == 'file' and dec(res['disk']) != norm(f.getvalue()):
            ps.append(Problem('the file on disk has %r instead of %r (%s)' % (shorten(dec(res['disk'])), shorten(norm(f.getvalue())), x['ops']), 'disk'))
        if not ps and kind in ('bytesio', 'sized') and res['raw_closed'] != closed:
            ps.append(Problem('the wrapped file is closed: %r (%s)' % (res['raw_closed'], x['ops']), 'raw'))
        return ps
