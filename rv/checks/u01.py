import re

from .common import *
from .c01 import je

HTTP = 'request_parser.utils.http.'
ENCODING = 'request_parser.utils.encoding.'


class CallCheck(Check):
    """calls of functions, in batches; one() gives [(function, args, kwargs)] and what judge_one needs"""
    batch = 12
    thorough = 14
    technique = 'runtime monitoring: generated calls against an independent oracle'

    def cases(self):
        for i in range(self.n * self.scale):
            calls, xs, tags = [], [], set()
            for _ in range(self.batch):
                cs, x = self.one(self.rng, tags)
                xs.append((len(calls), len(cs), x))
                calls += [[f, [je(a) for a in args], dict((k, je(v)) for k, v in kw.items())] for f, args, kw in cs]
            yield Case({'op': 'call', 'calls': calls}, xs, sorted(tags))

    def judge(self, c, res):
        ps = []
        r = [dec(s) if 'exc' in s else dec(s['v']) for s in res['steps']]
        for at, n, x in c.x:
            before = len(ps)
            self.judge_one(ps, x, r[at:at + n])
            for p in ps[before:]:
                p.what += '; calls ' + repr(c.job['calls'][at:at + n])[:700]
        return ps


SCHEME = re.compile(r'([A-Za-z0-9+.\-]+):', re.S)
PARAM_SCHEMES = ('', 'http', 'https', 'ftp')


def split(url, scheme, fragments):
    """RFC 3986, appendix B, with schemes of scheme characters only"""
    m = SCHEME.match(url)
    if m:
        scheme, url = m.group(1).lower(), url[m.end():]
    m = re.match(r'(?://([^/?#]*))?(.*)\Z', url, re.S)
    netloc, rest = m.group(1) or '', m.group(2)
    if ('[' in netloc) != (']' in netloc):
        return None
    fragment = query = ''
    if fragments:
        rest, _, fragment = rest.partition('#')
    rest, _, query = rest.partition('?')
    return (scheme, netloc, rest, query, fragment)


def part(rng, chars, hi=6):
    return ''.join(rng.choice(chars) for _ in range(rng.randint(0, hi)))


def url(rng):
    if rng.random() < 0.35:
        return part(rng, 'ah:/?#[]@;=.&%-1Z\\ +', 16)
    s = ''
    if rng.random() < 0.6:
        s += rng.choice(['http', 'https', 'HTTP', 'ftp', 'a', 'Web+x.y-1', '1a', 'mailto', 'javascript', 'a_b', 'ht tp', '', '+']) + ':'
    if rng.random() < 0.6:
        s += '//' + rng.choice([part(rng, 'ahH.:@1-%_;', 8), '[::1]', '[::1]:80', 'h:80', 'u:p@h', '', '[', ']', 'a]b[', '[v1'])
    s += part(rng, rng.choice(['ab/', 'ab/;=:', '/ab%2F@:.', ';/a']), 9)
    if rng.random() < 0.5:
        s += '?' + part(rng, 'ab=&;?/%:@[]', 8)
    if rng.random() < 0.5:
        s += '#' + part(rng, 'ab#?/;=:[]', 8)
    return s


CHARSETS = {'utf-8': 'é\u20acж中\U0001f600', 'ISO-8859-1': 'é\xff', 'koi8-r': 'жЖ', 'windows-1252': 'é\u20ac'}


def quote_some(rng, t, enc):
    out = ''
    for ch in t:
        if ch == ' ' and rng.random() < 0.7:
            out += '+'
        elif ch in '&;=%+ #' or ord(ch) > 126 or ord(ch) < 33 or rng.random() < 0.1:
            out += ''.join(rng.choice(['%%%02X', '%%%02x']) % x for x in ch.encode(enc))
        else:
            out += ch
    return out


class CHECK(CallCheck):
    id = 'U01'
    n = 1400
    rule = 'URLs composed of parts and of arbitrary URL characters, split with all flags and compared with the regular expression of RFC 3986; query strings composed of names and values, parsed with all flags; distinct by batch'
    required = ('split', 'parse', 'params', 'scheme', 'default scheme', 'no fragments', 'ValueError', 'text', 'bytes', 'qsl', 'blank dropped', 'limit ok', 'limit exceeded', 'encoding', 'long url', 'many pairs', 'long value')

    def one(self, rng, tags):
        if rng.random() < 0.6:
            s = url(rng)
            fn = rng.choice(['_urlsplit', '_urlparse'])
            if rng.random() < 0.01:
                s += rng.choice(['', '/', '?', '#', ';', '@', ':']) + gen.text_of(rng, rng.choice(['a', 'ab/', 'ab=&', '.', '/', ':', ';a', 'a@']), gen.large(rng, 20, 20000))
                tags.add('long url')
            uni = rng.random() < 0.5
            tags.add('text' if uni else 'bytes')
            if uni and rng.random() < 0.3:
                s += rng.choice(['é', '\u20ac/', 'ж'])
            scheme = rng.choice(['', '', 'ftp', 'zz'])
            frag = rng.random() < 0.75
            kw = {}
            if scheme:
                kw['scheme'] = scheme if uni else scheme.encode()
                tags.add('default scheme')
            if not frag:
                kw['allow_fragments'] = False
                tags.add('no fragments')
            w = split(s, scheme, frag)
            if w is None:
                tags.add('ValueError')
            elif fn == '_urlparse':
                tags.add('parse')
                params = ''
                path = w[2]
                if w[0] in PARAM_SCHEMES:
                    i = path.find(';', max(path.rfind('/'), 0))
                    if i >= 0:
                        path, params = path[:i], path[i + 1:]
                        tags.add('params')
                elif ';' in path and w[0] not in ('javascript', 'zz', 'mailto', 'a', '1a', '+', 'web+x.y-1'):
                    w = 'any'
                if w != 'any':
                    w = (w[0], w[1], path, params, w[3], w[4])
            else:
                tags.add('split')
            if w and w != 'any' and w[0]:
                tags.add('scheme')
            return [(HTTP + fn, [s if uni else s.encode('ascii')], kw)], ('url', s, w)
        enc = rng.choice(list(CHARSETS))
        pieces, pairs = [], []
        kb = rng.random() < 0.6
        many = gen.large(rng, 10, 2000) if rng.random() < 0.003 else 0
        if many > 100:
            tags.add('many pairs')
        for _ in range(many or rng.randint(0, 7)):
            if rng.random() < 0.12:
                pieces.append('')
                continue
            k, v = (part(rng, 'ab &;=%+c' + CHARSETS[enc], 4) for _ in range(2))
            if rng.random() < 0.001:
                v = gen.text_of(rng, 'ab &;=%+c' + CHARSETS[enc], gen.large(rng, 20, 5000))
                tags.add('long value')
            q = quote_some(rng, k, enc)
            if rng.random() < 0.15:
                if not q:
                    pieces.append('')
                    continue
                pieces.append(q)
                v = ''
            else:
                if rng.random() < 0.15:
                    v = ''
                qv = quote_some(rng, v, enc)
                if rng.random() < 0.1:
                    v, qv = v + '=x=', qv + '=x='
                if rng.random() < 0.08:
                    v, qv = v + '%zz%', qv + '%zz%'
                pieces.append(q + '=' + qv)
            if v or kb:
                pairs.append((k, v))
            else:
                tags.add('blank dropped')
        s = ''
        for i, p in enumerate(pieces):
            s += (rng.choice('&&;') if i else '') + p
        n = len(re.split('[&;]', s))
        kw = {}
        if kb:
            kw['keep_blank_values'] = True
        if enc != 'utf-8':
            kw['encoding'] = enc.encode()
            tags.add('encoding')
        w = pairs
        if rng.random() < 0.5:
            kw['fields_limit'] = rng.choice([n - 1, n, n + 1, 1, 2, 0, 100] if not many else [n - 1, n, n, n + 1, 10 ** 6])
            if kw['fields_limit'] < 0:
                kw['fields_limit'] = 0
            if kw['fields_limit'] and n > kw['fields_limit']:
                w = None
                tags.add('limit exceeded')
            else:
                tags.add('limit ok')
        tags.add('qsl')
        return [(HTTP + 'limited_parse_qsl', [s], kw)], ('qsl', s, w)

    def judge_one(self, ps, x, r):
        kind, s, w = x
        r = r[0]
        if w is None:
            if not is_exc(r, 'ValueError' if kind == 'url' else 'TooManyFieldsSent'):
                ps.append(Problem('%r is not refused: %r' % (s, r), kind + '-refuse'))
        elif w == 'any':
            if is_exc(r):
                ps.append(Problem('%r is refused: %r' % (s, r), kind))
        elif is_exc(r) or (r if kind == 'url' else [tuple(p) for p in r]) != norm(w):
            ps.append(Problem('%r gives %r instead of %r' % (s, r, w), kind))
