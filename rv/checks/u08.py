import html.entities

from .common import *
from core import u

TEXTS = ['', 'a', 'abc def', 'r\xe9sum\xe9', '\u20ac5', '\u0436\u0434', '\u65e5\u672c', 'x\xffy', '\x00\n']
CODECS = {'utf-8': 'utf-8', 'ascii': 'ascii', 'iso-8859-1': 'iso-8859-1', 'koi8-r': 'koi8-r', 'shift_jis': 'shift_jis', 'windows-1252': 'windows-1252'}
NAMES = ['utf-8', 'UTF8', 'utf_8', 'Latin-1', 'iso-8859-15', 'ascii', 'US-ASCII', 'koi8-r', 'shift_jis', 'gb2312', 'big5', 'euc-jp', 'cp437', 'windows-1252', 'ISO-8859-1']
NONAMES = ['', 'nope', 'hex', 'base64', 'zlib', 'bz2', 'quopri', 'uu', 'utf-9', 'utf-8; q=1', '../x', 'x' * 300, 'hex_codec', 'a\x00b', 'base64_codec']


class CHECK(Check):
    id = 'U08'
    n = 700
    rule = ('texts, bytes, numbers, dates, lazy and broken objects turned into strings in all encodings and error modes; names of codecs; header dictionaries searched by names in all letter cases; text with HTML entities of '
            'every kind; paths below the package; compared with what they were made of; distinct by batch')
    required = ('bytes', 'text', 'not encodable', 'replace', 'number', 'strings only', 'protected', 'lazy', 'undecodable', 'error', 'codec', 'no codec', 'entity', 'no entity', 'huge entity', 'several spellings', 'no such header',
                'header', 'path', 'not protected')
    assumptions = ['codecs that Jython implements differently (UTF-16, string_escape) and booleans or long integers as protected types are not judged']

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            stps, want, tags = [], [], set()
            for _ in range(14):
                s, w, t = self.one(rng)
                stps.append(s)
                want.append(w)
                tags.update(t)
            yield Case({'op': 'texts', 'steps': stps}, want, sorted(tags))

    def one(self, rng):
        op = rng.choice(['force'] * 5 + ['protected', 'codec', 'entities', 'entities', 'find', 'find', 'path', 'error'])
        if op == 'force':
            fn = rng.choice(['force_text', 'force_str'])
            k = rng.choice(['bytes', 'text', 'text', 'text', 'number', 'protected', 'lazy', 'bad', 'sub', 'other'])
            kw = {}
            cs = 'utf-8'
            if rng.random() < 0.6:
                cs = rng.choice(sorted(CODECS))
                kw['encoding'] = cs
            errors = 'strict'
            if rng.random() < 0.5:
                errors = kw['errors'] = rng.choice(['strict', 'replace', 'ignore', 'xmlcharrefreplace', 'backslashreplace'])
            only = rng.random() < 0.5
            if only:
                kw['strings_only'] = True
            tags = [k] + ['strings only'] * only
            if k == 'bytes':
                d = bytes(rng.randrange(256) for _ in range(rng.randint(0, 6) if rng.random() < 0.95 else gen.large(rng, 10, 20000)))
                return [fn, b(d), kw], ('is', [d, True, True, False]), tags
            if k in ('text', 'sub'):
                t = rng.choice(TEXTS)
                if rng.random() < 0.02:
                    t *= gen.large(rng, 10, 2000)
                v = u(t)
                if k == 'sub':
                    v = {'kind': 'text', 'v': u(t)}
                try:
                    e = t.encode(cs, errors)
                except UnicodeEncodeError:
                    return [fn, v, kw], ('fails', 'UnicodeEncodeError'), tags + ['not encodable']
                try:
                    t.encode(cs)
                except UnicodeEncodeError:
                    tags.append(errors)
                    if errors == 'xmlcharrefreplace' or errors == 'backslashreplace':
                        e = e
                return [fn, v, kw], ('is', [e, False, True, False]), tags
            if k == 'number':
                n = rng.choice([0, 1, -5, 123456, 1.5, -0.25])
                if only:
                    return [fn, {'f': repr(n)} if isinstance(n, float) else n, kw], ('is', [n, True, False, False]), tags
                return [fn, {'f': repr(n)} if isinstance(n, float) else n, kw], ('is', [str(n), False, True, False]), tags
            if k == 'protected':
                o, t = rng.choice([('date', '2001-02-03'), ('datetime', '2001-02-03 04:05:06'), ('time', '04:05:06'), ('decimal', '1.50'), ('none', 'None')])
                v = None if o == 'none' else {'kind': o, 'v': '1.50'}
                if only:
                    return [fn, v, kw], ('same',), tags
                return [fn, v, kw], ('is', [t, False, True, False]), tags
            if k == 'lazy':
                t = rng.choice(['', 'abc', 'lazy text'])
                return [fn, {'kind': 'lazy', 'v': t}, kw], ('is', [t, False, True, False]), tags
            if k == 'bad':
                return [fn, {'kind': 'bad'}, kw], ('error',), ['undecodable'] + tags
            o, t = rng.choice([('list', '[1]'), ('tuple', '(1, 2)'), ('dict', '{}'), ('exception', 'oh')])
            return [fn, {'kind': o, 'v': 'oh'}, kw], ('is', [t, False, True, False]), tags
        if op == 'protected':
            o, w = rng.choice([(None, True), (5, True), ({'f': '1.5'}, True), ('date', True), ('datetime', True), ('time', True), ('decimal', True), (b('x'), False), (u('x'), False), ('list', False), ('dict', False), ('tuple', False),
                               ('lazy', False), ('object', False)])
            return ['protected', {'kind': o, 'v': '1'} if isinstance(o, str) else o], ('is', w), ['protected' if w else 'not protected']
        if op == 'codec':
            if rng.random() < 0.5:
                return ['codec', b(gen.case_mix(rng, rng.choice(NAMES)))], ('is', True), ['codec']
            return ['codec', b(rng.choice(NONAMES))], ('is', False), ['no codec']
        if op == 'find':
            name = rng.choice(['Host', 'Content-Type', 'X-A', 'content-length', ''])
            n = rng.randint(0, 3)
            there = list({gen.case_mix(rng, name) for _ in range(n)})
            other = [x for x in ['Accept', 'X-Host', 'Hos', 'Content-Typ', 'Content-Type ', 'X_A', 'X-AB'] if rng.random() < 0.4]
            asked = rng.choice([name, gen.case_mix(rng, name), name.lower(), name.upper()])
            keys = there + other
            rng.shuffle(keys)
            w = [asked] if asked in there or not there else there
            return ['find', [b(x) for x in keys], b(asked)], ('one', w), ['no such header' if not there else 'several spellings' if len(there) > 1 else 'header']
        if op == 'path':
            dirs = [rng.choice(['a', 'b c', 'x/y', 'tests', 'd/', 'x/', '.']) for _ in range(rng.randint(0, 4))]
            p = [x for d in dirs for x in d.split('/') if x not in ('', '.')]
            return ['path', [b(x) for x in dirs]], ('is', '/'.join(p) or '.'), ['path']
        if op == 'error':
            o = rng.choice([b('x'), 5, None, {'kind': 'list'}, b('\xff\xfe'), u('\u20ac')])
            d = b'ab\xff'
            return ['error', o, b('utf-8'), b(d), 2, 3, b('some reason')], ('made',), ['error']
        # entities
        parts = []
        zeros = lambda: '0' * (rng.choice([0, 1, 3, 10]) if rng.random() < 0.97 else gen.large(rng, 20, 2000))
        for _ in range(rng.randint(1, 4) if rng.random() < 0.99 else gen.large(rng, 8, 500)):
            k = rng.choice(['text', 'named', 'dec', 'hex', 'none', 'huge'])
            if k == 'text':
                t = rng.choice(['a', 'x y', ' ', ';', '#', '\xe9', 'lt;', '/'])
                parts.append((t, t))
            elif k == 'named':
                n = rng.choice(['amp', 'lt', 'gt', 'quot', 'nbsp', 'eacute', 'yuml', 'hellip', 'alpha', 'euro', 'Omega', 'copy'])
                c = html.entities.name2codepoint[n]
                parts.append(('&%s;' % n, chr(c) if c < 256 else '&%s;' % n))
            elif k in ('dec', 'hex', 'huge'):
                c = rng.choice([0, 10, 65, 97, 127, 128, 233, 255, 256, 8364, 0x10FFFF, 0x110000]) if k != 'huge' else rng.choice([2 ** 31, 2 ** 32 + 65, 2 ** 63, 2 ** 64 + 65, 10 ** 30])
                s = zeros() + '%d' % c if k == 'dec' or k == 'huge' and rng.random() < 0.5 else rng.choice(['x%s%x', 'X%s%X']) % (zeros(), c)
                parts.append(('&#%s;' % s, chr(c) if c < 256 else '&#%s;' % s))
            else:
                t = rng.choice(['&nope;', '&#;', '&#x;', '&;', '&#xg;', '&# 65;', '&#-65;', '&amp', '&AMP;', '&toolongname;', '&x41;', '&#1.5;', '& lt;'])
                parts.append((t, t))
        if len(parts) > 4:
            parts = [x for x in parts if not x[0].endswith(('&', '#', 'amp'))]
        text = ''.join(a for a, _ in parts)
        if any(x[0].endswith(('&', '#', 'amp')) for x in parts[:-1]):
            return self.one(rng)        # (would join with what follows)
        t = ['huge entity' for a, w in parts if len(a) > 12] + ['entity' for a, w in parts if a != w] + ['no entity' for a, w in parts if a == w]
        return ['entities', b(text)], ('is', [''.join(w for _, w in parts).encode('latin-1'), True]), t

    def judge(self, c, res):
        ps = []
        for st, w, got in zip(c.job['steps'], c.x, steps(res)):
            if w[0] == 'is':
                ok = got == norm(w[1]) and not (isinstance(got, bool) ^ isinstance(w[1], bool))
            elif w[0] == 'same':
                ok = isinstance(got, list) and got[1] is True
            elif w[0] == 'fails':
                ok = is_exc(got, w[1])
            elif w[0] == 'error':
                ok = is_exc(got, 'DjangoUnicodeDecodeError') and 'Undecodable' in str(got.msg)
            elif w[0] == 'one':
                ok = isinstance(got, list) and got[0] in w[1] and got[1] is True
            elif w[0] == 'made':
                ok = isinstance(got, list) and 'You passed in' in got[0] and got[1:] == ['some reason', True, 2]
            if not ok:
                ps.append(Problem('%r gives %r, expected %r' % (st, got, w), st[0]))
        return ps
