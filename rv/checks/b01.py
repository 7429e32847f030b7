from .common import *
from core import hashable

CHARSETS = {'iso-8859-1': 'ab\u00e9\u00fc\u00ff', 'utf-8': '\u00e9\u2603\u65e5\U0001F600z', 'koi8-r': '\u0430\u0431\u0432z', 'windows-1252': '\u20ac\u00e9\u0153',
            'shift_jis': '\u65e5\u672c\u30bd\u8868a', 'gb2312': '\u4e2d\u6587b', 'euc-jp': '\u65e5\u672c', 'ascii': 'xyz', 'iso-8859-15': '\u20ac\u017d', 'cp437': '\u00e9\u00e7'}
SAFE = gen.LETTERS + '0123456789-._~*'
PUNCT = '!"#$%&\'()*+,/:;<=>?@[\\]^`{|} \t\r\n\x00\x7f'


def text(rng, cs, lo=0, hi=8):
    return ''.join(gen.pick(rng, [(5, lambda: rng.choice(SAFE)), (2, lambda: rng.choice(PUNCT)), (2, lambda: rng.choice(CHARSETS[cs]))])() for _ in range(rng.randint(lo, hi)))


def escape(rng, t, cs, raw, plain):
    """t in charset cs, escaped; raw: non-ASCII characters may stay as they are; plain: punctuation that may stay"""
    out = []
    for ch in t:
        e = ch.encode(cs)
        if ch == ' ' and rng.random() < 0.6:
            out.append(b'+')
        elif ch in SAFE and rng.random() < 0.9 or ch in plain and rng.random() < 0.7:
            out.append(e)
        elif raw and 127 < ord(ch) < 0x10000 and rng.random() < 0.6:
            out.append(e)
        elif len(e) == 2 and e[1] < 128 and chr(e[1]) in SAFE and rng.random() < 0.5:
            out.append(b'%%%02X' % e[0] + e[1:])
        else:
            out.append(b''.join((b'%%%02X' if rng.random() < 0.5 else b'%%%02x') % c for c in e))
    return b''.join(out)


BROKEN = [('%', '%'), ('%zz', '%zz'), ('%4', '%4'), ('%%', '%%'), ('100%', '100%'), ('%u2603', '%u2603'), ('%g1', '%g1'), ('% 41', '% 41'), ('%%41', '%A')]


def large_pairs(rng, cs, query):
    """many pairs, or long ones, in the same form as pairs()"""
    how = rng.choice(['many', 'repeated', 'long value', 'long name'])
    long = lambda: gen.text_of(rng, gen.LETTERS + '0123456789.-_' + CHARSETS[cs], gen.large(rng, 30, 30000))
    if how in ('many', 'repeated'):
        want = [(gen.text_of(rng, gen.LETTERS, 4) if how == 'many' else rng.choice('nnnm'), rng.choice(['', 'v', 'w%d' % i])) for i in range(gen.large(rng, 12, 3000))]
    elif how == 'long value':
        want = [('a', 'b'), ('n', long()), ('c', '')]
    else:
        want = [('a', 'b'), (long(), 'v'), ('c', '')]
    out = b'&'.join(b'='.join(escape(rng, t, cs, False, '') for t in p) for p in want)
    return out, want, how


def pairs(rng, cs, raw, query):
    """Returns (bytes, [(name, value)])"""
    segs, want = [], []
    names = [text(rng, cs, 0, 5) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(0, 7)):
        k = rng.random()
        if k < 0.08:
            segs.append(b'')
            continue
        n = rng.choice(names) if rng.random() < 0.7 else text(rng, cs, 0, 6)
        v = text(rng, cs)
        pn = '!"$\'(),/:<>?@[\\]^`{|}' if not query else '!"$\'(),/:<>?@[\\]^`{|}'
        en = escape(rng, n, cs, raw, pn)
        if k < 0.2:
            # no equal sign
            if not en:
                continue
            segs.append(en)
            want.append((n, ''))
            continue
        ev = escape(rng, v, cs, raw, pn + '=')
        if rng.random() < 0.12:
            w, r = rng.choice(BROKEN)
            ev, v = ev + w.encode().replace(b' ', b'+'), v + r
            # (an escape at the end must not run into the broken one)
        segs.append(en + b'=' + ev)
        want.append((n, v))
    out = b''
    for i, s in enumerate(segs):
        out += (rng.choice([b'&', b'&', b'&', b';']) if i else b'') + s
    return out, want


class CHECK(Check):
    id = 'B01'
    warm = 0.06
    n = 2000
    rule = ('one request whose query string and form body were encoded from known pairs in a declared or configured charset, delivered in random '
            'chunks; GET, POST and their get()/getlist() are compared with the pairs; distinct by bytes, delivery and settings')
    required = ('query', 'form', 'declared', 'configured', 'unknown-charset', 'repeated', 'empty-value', 'not-form', 'fallback', 'raw-bytes', 'utf-8', 'shift_jis', 'no-query',
                'large: many', 'large: repeated', 'large: long value', 'large: long name')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            cs = rng.choice(sorted(CHARSETS))
            tags = []
            st = {}
            declared = rng.choice(['declared', 'configured', 'unknown-charset'])
            form = rng.random() < 0.75
            ct = 'application/x-www-form-urlencoded' if form else rng.choice(['text/plain', 'application/json', '', None, 'application/x-www-form-urlencoded2', 'multipart/mixed'])
            if ct is None and declared != 'configured':
                ct = 'text/html'
            if form and rng.random() < 0.1:
                ct = 'Application/X-WWW-Form-URLEncoded'
            if declared == 'configured':
                st['DEFAULT_CHARSET'] = cs
            elif declared == 'declared':
                if rng.random() < 0.3:
                    st['DEFAULT_CHARSET'] = rng.choice(sorted(CHARSETS))
                c = gen.case_mix(rng, cs)
                ct = ct + rng.choice(['; charset=', ';charset=', '; x=y; charset=', '; Charset=']) + (c if rng.random() < 0.6 else '"%s"' % c)
            else:
                st['DEFAULT_CHARSET'] = cs
                ct = ct + '; charset=' + rng.choice(['x-nope', 'base64', '', '"', 'hex'])
            tags += [declared, cs]
            q, wq = pairs(rng, cs, False, True) if rng.random() < 0.75 else (None, [])
            if q is not None:
                q = q.replace(b' ', b'+').replace(b'#', b'%23')
            body, wb = pairs(rng, cs, True, False)
            if rng.random() < 0.03:
                if rng.random() < 0.5:
                    q, wq, how = large_pairs(rng, cs, True)
                else:
                    body, wb, how = large_pairs(rng, cs, False)
                tags.append('large: ' + how)
                st['DATA_UPLOAD_MAX_FIELDS'] = rng.choice([None, 5000])
            tags.append('query' if wq else 'no-query')
            if form and rng.random() < 0.1 and cs == 'utf-8':
                # not decodable as a whole: taken as ISO-8859-1
                body = b'k' + rng.choice([b'\xe9', b'\xff\xfe', b'\xc3(', b'\x80']) + b'=%C3%A9v\xe9'
                wb = [(body[:body.index(b'=')].decode('latin-1'), '\u00e9v\u00e9')]
                tags.append('fallback')
            if any(x > 127 for x in body):
                tags.append('raw-bytes')
            if not form:
                wb = []
                if rng.random() < 0.5:
                    body = b'a=b&c=d'
            tags.append('form' if form else 'not-form')
            if any(v == '' for n, v in wq + wb):
                tags.append('empty-value')
            for w in (wq, wb):
                if len(set(n for n, v in w)) < len(w):
                    tags.append('repeated')
            hs = [b'Host: a.com']
            if ct is not None:
                hs.append(gen.case_mix(rng, 'Content-Type').encode() + b': ' + ct.encode())
            if rng.random() < 0.7:
                hs.append(b'Content-Length: %d' % len(body))
            rng.shuffle(hs)
            head = rng.choice([b'POST', b'GET', b'PUT']) + b' /p' + (b'?' + q if q is not None else b'') + b' HTTP/1.1\r\n' + b'\r\n'.join(hs) + b'\r\n\r\n'
            data = head + body
            steps_ = [['parse'], ['snap', ['meta', 'data', 'last']]] if rng.random() < 0.7 else [['header'], ['parse_body'], ['snap', ['meta', 'data', 'last']]]
            yield Case(req(data, steps_, gen.cuts(rng, len(data), [len(head)]), st), {'get': wq, 'post': wb}, tags)

    def judge(self, c, res):
        r = steps(res)
        for x in r:
            if is_exc(x):
                return [Problem('a well-formed request fails: %r' % x, 'error')]
        ps = []
        s = r[-1]
        for d, w in (('GET', c.x['get']), ('POST', c.x['post'])):
            w = gen.group(w)
            check_post(ps, s[d], w, d)
            want = dict((hashable(norm(k)), norm(v)) for k, v in w)
            for k, last, l in s[d + 'last']:
                if l != want.get(hashable(k)) or [last] != (l[-1:] if l else [None]):
                    # (a value that is an empty list is not among these)
                    ps.append(Problem('%s: get(%r) gives %r, getlist %r' % (d, k, last, l), d + '-get'))
        return ps
