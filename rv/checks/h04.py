from .common import *

EXOTIC = ['utf-8', 'iso-8859-1', 'ascii', 'koi8-r', 'shift_jis', 'utf-7', 'unknown-8bit', '', '"', '"utf-8"', 'base64', 'hex', 'zlib', 'bz2', 'rot13',
          'quopri', 'uu', 'idna', 'punycode', 'undefined', 'string_escape', 'unicode_escape', 'raw_unicode_escape', 'utf-8-sig', 'cp037',
          'mbcs', 'os', 'x' * 300, 'a b', '../x', '.', '\x00', 'None', 'iso2022_jp', 'big5']
FIELDS = ('method', 'scheme', 'host', 'port', 'path', 'protocol_info', 'content_type', 'qs', 'headers')


class CHECK(Check):
    id = 'H04'
    rule = ('a head that was assembled and then damaged in one known way (must be refused), or mutated, spliced or random bytes (any '
            'documented outcome), delivered in random chunks; distinct by bytes and delivery')
    required = ('truncated', 'fields', 'nocolon', 'noheaders', 'nonascii-target', 'nonascii-field', 'brackets', 'mutated', 'random',
                'charset', 'toomany', 'InvalidHttpRequest', 'NoHostFoundException', 'TooManyFieldsSent', 'accepted')
    n = 2600

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            kind = gen.pick(rng, [(3, 'truncated'), (3, 'fields'), (2, 'nocolon'), (1, 'noheaders'), (2, 'nonascii-target'),
                                  (2, 'nonascii-field'), (1.5, 'brackets'), (6, 'mutated'), (3, 'random'), (3, 'charset'), (1.5, 'toomany')])
            o = {'bad': 0.3, 'allow_nohost': True}
            if kind == 'charset':
                o['ctype'] = rng.choice(['application/x-www-form-urlencoded', 'multipart/form-data', 'text/plain']) + '; charset=' + rng.choice(EXOTIC)
                o['dup_ctype'] = False
            if kind == 'toomany':
                o['query'] = gen.gen_query(rng) + '&a=1;b=2&c'
                o['form'] = 'origin'
            head, m = gen.gen_head(rng, **o)
            settings = {}
            if rng.random() < 0.5:
                settings['MAX_HEADER_SIZE'] = max(len(head) // 400, rng.choice([1, 2, 3, 4, 7, 16, 64, len(head), 4096]))
            must = None
            body = body_decoys(rng)
            line, rest = head.split(b'\r\n', 1)
            me, ta, pr = [x.encode() for x in (m['method'], m['target'], m['proto'])]
            if kind == 'truncated':
                head, body = head[:rng.choice([rng.randint(0, len(head) - 1), len(head) - rng.randint(1, min(4, len(head)))])], b''
                must = 'InvalidHttpRequest'
            elif kind == 'fields':
                line = rng.choice([me, me + b' ' + ta, me + b' ' + ta + b' ' + pr + b' x', me + b'  ' + ta + b' ' + pr, me + b' ' + ta + b'  ' + pr,
                                   b' ' + line, line + b' ', me + b'\t' + ta + b'\t' + pr, ta + b' ' + pr, me + b' ' + ta + b' a ' + pr,
                                   me + b' /a b c ' + pr, me + ta + pr])
                if len(line.split(b' ')) == 3:
                    line += b' x'
                head = line + b'\r\n' + rest
                must = 'InvalidHttpRequest'
            elif kind == 'nocolon':
                lines = rest[:-4].split(b'\r\n')
                bad = rng.choice([b'X', b'Host', b'Host a.com', b'a=b', b' folded', b'\tx', gen.word(rng, gen.TOKEN, 1, 20).encode(), b'\x00', b'"'])
                lines.insert(rng.randint(0, len(lines)), bad)
                head = line + b'\r\n' + b'\r\n'.join(lines) + b'\r\n\r\n'
                must = 'InvalidHttpRequest'
            elif kind == 'noheaders':
                head = line + b'\r\n\r\n'
                must = 'InvalidHttpRequest'
            elif kind == 'nonascii-target':
                at = rng.randint(0, len(ta))
                ta = ta[:at] + rng.choice([b'\x80', b'\xff', b'\xc3\xa9', b'\xa0', b'\xe2\x98\x83', bytes([rng.randint(128, 255)])]) + ta[at:]
                head = me + b' ' + ta + b' ' + pr + b'\r\n' + rest
                must = 'InvalidHttpRequest'
            elif kind == 'nonascii-field':
                lines = rest[:-4].split(b'\r\n')
                j = rng.randrange(len(lines))
                at = rng.randint(0, len(lines[j]))
                lines[j] = lines[j][:at] + rng.choice([b'\x80x', b'\xff.', b'\xc3\xa9', bytes([rng.randint(128, 255)]) + b'~']) + lines[j][at:]
                head = line + b'\r\n' + b'\r\n'.join(lines) + b'\r\n\r\n'
                must = 'InvalidHttpRequest'
            elif kind == 'brackets':
                auth = rng.choice(['[::1', '::1]', '[', ']', 'a[b', 'a]b:80', '[::1:80', 'u@[x'])
                ta = (rng.choice(['http', 'https', 'x', 'HTTP']) + '://' + auth + rng.choice(['', '/', '/a[b]', '?[]', '#]'])).encode()
                head = me + b' ' + ta + b' ' + pr + b'\r\n' + rest
                must = 'InvalidHttpRequest'
            elif kind == 'mutated':
                for _ in range(rng.randint(1, 4)):
                    head = mutate(rng, head)
            elif kind == 'random':
                head = rng.choice([
                    lambda: bytes(rng.randrange(256) for _ in range(rng.randint(0, 60))) + b'\r\n\r\n',
                    lambda: b' '.join(bytes(rng.randrange(256) for _ in range(rng.randint(0, 9))) for _ in range(3)) + b'\r\n' + bytes(rng.randrange(256) for _ in range(9)) + b':\r\n\r\n',
                    lambda: b'G ' + gen.url_text(rng, 0, 12, extra='?#:/[]@;').encode() + b' H\r\nHost:' + bytes(rng.randrange(128) for _ in range(rng.randint(0, 6))) + b'\r\n\r\n',
                    lambda: bytes(rng.choice(b' \r\n:/a?#[]') for _ in range(rng.randint(0, 40))) + b'\r\n\r\n',
                    lambda: rng.choice([b'', b'\r', b'\r\n', b'\r\n\r\n', b'\n\n', b'\r\n\r\n\r\n', b':\r\n\r\n', b' \r\n\r\n', b'  \r\n:\r\n\r\n', b'\r\n \r\n:\r\n\r\n'])])()
            elif kind == 'toomany':
                settings['DATA_UPLOAD_MAX_FIELDS'] = rng.choice([1, 2, 3])
                must = 'TooManyFieldsSent' if m['hostsrc'] is not None else 'NoHostFoundException'
            data = head + body
            if must == 'InvalidHttpRequest' and kind != 'truncated' and (head.startswith(b'\r\n') or head.find(b'\r\n\r\n') != len(head) - 4):
                must = None
            hot = [len(head), len(head) - 2]
            yield Case(req(data, [['header'], ['snap', ['meta']]], gen.cuts(rng, len(data), hot), settings), {'must': must, 'kind': kind}, [kind])

    def judge(self, c, res):
        r = steps(res)
        ps = []
        if is_exc(r[0]):
            if not is_exc(r[0], *DOC_HEAD):
                return [Problem('an undocumented error: %r' % r[0], 'undocumented')]
            self.seen(r[0].name)
            if c.x['must'] and not is_exc(r[0], c.x['must']):
                ps.append(Problem('%s: refused with %r instead of %s' % (c.x['kind'], r[0], c.x['must']), 'other-error'))
            if not is_exc(r[0], 'TooManyFieldsSent'):
                s = r[1]
                if not isinstance(s, dict):
                    return ps + [Problem('metadata unreadable after a refusal: %r' % (s,), 'unreadable')]
                left = [(k, s[k]) for k in FIELDS if s[k] not in (None, 'None', '<missing>')]
                if left or s['GET'] not in (None, []):
                    ps.append(Problem('metadata after a refusal: %r %r' % (left, s['GET']), 'left'))
        else:
            self.seen('accepted')
            if c.x['must']:
                ps.append(Problem('%s: a malformed head is accepted: %r' % (c.x['kind'], r[1]), 'accepted'))
        return ps


def mutate(rng, d):
    if not d:
        return b'\r\n'
    i = rng.randrange(len(d))
    j = min(len(d), i + rng.randint(1, 8))
    return rng.choice([
        lambda: d[:i] + d[j:],
        lambda: d[:i] + d[i:j] * 2 + d[j:],
        lambda: d[:i] + bytes([rng.randrange(256)]) + d[i + 1:],
        lambda: d[:i] + bytes([rng.choice(b' \r\n:;?#/[]@%=,"\\\x00')]) + d[i:],
        lambda: d[:i] + rng.choice([b'\r\n', b'\r\n\r\n', b': ', b'://', b' ', b'//', b'\n']) + d[i:],
        lambda: d[j:] + d[i:j] + d[:i],
        lambda: d[:i] + d[i:j][::-1] + d[j:],
        lambda: d[:i] + d[i:j].swapcase() + d[j:]])()
