from .common import *

F = 'request_parser.http.multipartparser.parse_header'
CHARSETS = {'utf-8': 'abc \u00e9\u2603\u65e5\U0001F600"\';=\\%/', 'UTF-8': 'a\u00e9"', 'iso-8859-1': 'ab\u00e9\u00fc\u00ff;"', 'koi8-r': '\u0430\u0431\u0432z', 'windows-1252': '\u20ac\u00e9',
            'shift_jis': '\u65e5\u672ca', 'us-ascii': 'plain;"=', 'iso-8859-15': '\u20acx'}
MAINS = ['form-data', 'text/plain', 'Multipart/Form-Data', 'content-disposition: form-data', 'Content-Type: TEXT/html', '', 'attachment', 'a=b', 'x y', '*', "it's", 'a\\b']


def pctenc(rng, raw):
    out = []
    for c in raw:
        if chr(c) in gen.LETTERS + '0123456789-._~' and rng.random() < 0.8:
            out.append(chr(c))
        else:
            out.append(rng.choice(['%%%02x', '%%%02X']) % c)
    return ''.join(out)


class CHECK(Check):
    id = 'H06'
    rule = ('calls of parse_header() on a header assembled from known parameters (token, quoted, extended; with white space), or on arbitrary '
            'bytes (totality); distinct by header')
    required = ('quoted', 'token', 'extended', 'extended-unknown', 'extended-nonascii', 'escaped-quote', 'semicolon-in-quotes', 'duplicate', 'arbitrary', 'empty-value', 'many', 'long')
    n = 260          # jobs of 40 calls each
    batch = 40

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            calls, want, tags = [], [], []
            for _ in range(self.batch):
                if rng.random() < 0.25:
                    d, w = self.arbitrary(rng), None
                    tags.append('arbitrary')
                else:
                    d, w = self.build(rng, tags)
                calls.append([F, [b(d)], {}])
                want.append((d, w))
            yield Case({'op': 'call', 'calls': calls}, want, tags)

    def ws(self, rng):
        return gen.pick(rng, [(5, b''), (3, b' '), (1, b'\t'), (1, b'  '), (0.5, b' \t ')])

    def build(self, rng, tags):
        main = rng.choice(MAINS) if rng.random() < 0.6 else gen.word(rng, gen.TOKEN + '/: ', 1, 12).strip()
        out = [self.ws(rng), main.encode(), self.ws(rng)]
        want = {}
        number = rng.randint(0, 4)
        self.long = None
        if rng.random() < 0.01:
            if rng.random() < 0.3:
                number = gen.large(rng, 8, 300)
                tags.append('many')
            else:
                self.long = rng.choice(['raw', 'letters', 'text'])
                number = 1
                tags.append('long')
        for _ in range(number):
            name = rng.choice(['name', 'filename', 'charset', 'boundary', 'NAME', 'x']) if rng.random() < 0.7 else gen.word(rng, gen.TOKEN.replace('*', '').replace("'", ''), 1, 8)
            kind = gen.pick(rng, [(3, 'token'), (5, 'quoted'), (3, 'extended'), (1, 'none'), (0.7, 'empty')])
            out += [b';', self.ws(rng)]
            if kind == 'none':
                out += [rng.choice([b'', name.encode(), b' '])]
                continue
            if kind == 'empty':
                out += [name.encode(), self.ws(rng), b'=', self.ws(rng)]
                v = b''
                tags.append('empty-value')
            elif kind == 'token':
                v = self.raw(rng, no=b';"').strip(b' \t\r\n\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\x00')
                out += [name.encode(), self.ws(rng), b'=', self.ws(rng), v, self.ws(rng)]
                tags.append('token')
            elif kind == 'quoted':
                v = self.raw(rng)
                out += [name.encode(), self.ws(rng), b'=', self.ws(rng), b'"', v.replace(b'\\', b'\\\\').replace(b'"', b'\\"'), b'"', self.ws(rng)]
                tags.append('quoted')
                if b'"' in v:
                    tags.append('escaped-quote')
                if b';' in v:
                    tags.append('semicolon-in-quotes')
            else:
                cs = rng.choice(sorted(CHARSETS))
                text = gen.word(rng, CHARSETS[cs], 0, 8)
                if self.long:
                    text = gen.text_of(rng, CHARSETS[cs], gen.large(rng, 20, 3000))
                v = text.encode('utf-8')
                enc = pctenc(rng, text.encode(cs)).encode()
                tags.append('extended')
                k = rng.random()
                if k < 0.12:
                    cs = rng.choice(['x-unknown', 'nope', 'base64', 'hex', 'zlib', 'idna', 'string_escape', '', 'bz2'])
                    v = enc
                    tags.append('extended-unknown')
                elif k < 0.2:
                    enc += bytes([rng.randint(0xa1, 255)]) + b'x'
                    v = enc
                    tags.append('extended-nonascii')
                out += [name.encode(), b'*', self.ws(rng), b'=', self.ws(rng), cs.encode(), b"'", rng.choice([b'', b'en', b'de-DE']), b"'", enc, self.ws(rng)]
            if name.lower() in want:
                tags.append('duplicate')
            want[name.lower()] = v
        return b''.join(out), (main.lower(), want)

    def raw(self, rng, no=b''):
        k = rng.random()
        if self.long == 'letters':
            d = gen.text_of(rng, gen.LETTERS + '0123456789._-', gen.large(rng, 20, 70000)).encode()
        elif self.long:
            d = gen.text_of(rng, 'abcdefgh;="\\"\'*% \t/,:', gen.large(rng, 20, 5000)).encode()
        elif k < 0.3:
            d = gen.word(rng, gen.LETTERS + '0123456789._-', 1, 12).encode()
        elif k < 0.8:
            d = bytes(rng.choice(b'ab;="\\\\"\'*% \t/,:') for _ in range(rng.randint(0, 12)))
        else:
            d = bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
        return bytes(c for c in d if c not in no)

    def arbitrary(self, rng):
        if rng.random() < 0.5:
            return bytes(rng.choice(b'ab;;=="\\"\'\'*% :\x00~\n') for _ in range(rng.randint(0, 24)))
        v = bytes(rng.randrange(256) for _ in range(rng.randint(0, 16))).replace(b';', b'')
        return rng.choice([b'x', b'']) + b'; a' + rng.choice([b'', b'*']) + b'=' + rng.choice([b'', b"utf-8''", b'"', b"ascii''", b"quopri''", b"''"]) + v

    def judge(self, c, res):
        ps = []
        for (d, w), g in zip(c.x, steps(res)):
            if is_exc(g):
                ps.append(Problem('parse_header(%r) fails with %r' % (d, g), 'error'))
                continue
            v = g['v']
            if not isinstance(v, tuple) or len(v) != 2 or not isinstance(v[1], dict):
                ps.append(Problem('parse_header(%r) gives %r' % (d, v), 'shape'))
            elif w is not None and (v[0] != w[0] or v[1] != norm(w[1])):
                ps.append(Problem('parse_header(%r) gives %r, expected %r' % (d, v, norm(w)), 'value'))
            self.calls = getattr(self, 'calls', 0) + 1
        return ps
