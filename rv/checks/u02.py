import urllib.parse

from .common import *
from .u01 import CallCheck, HTTP, ENCODING

ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
IRI_SAFE = set(ALNUM + "-._/#%[]=:;$&()+,!?*@'~")
PATH_SAFE = set(ALNUM + "/:@&+$,-_.!~*'()")
QUOTE_SAFE = set(ALNUM + '-._')
ODD = '\x00\x01\t\n\r\x1f\x7f\x80\xa0éÿ\u0130\u07ff\u0800\u20ac\ud7ff\ue000\ufffd\uffff\U00010000\U0001f600\U0010ffff中ж'


def pct(t, safe, plus=False):
    out = ''
    for x in t.encode('utf-8'):
        c = chr(x)
        out += c if x < 128 and c in safe else '+' if plus and c == ' ' else '%%%02X' % x
    return out


def text(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20])
    if rng.random() < 0.006:
        return gen.text_of(rng, rng.choice(['abcdef', 'ab \xe9\u20ac/%?', ' ', '%', '\xe9', '/?&=#']), gen.large(rng, 30, 3000))
    how = rng.random()
    out = ''
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            out += rng.choice(ODD)
        elif r < 0.45:
            out += rng.choice(['%', '%2', '%zz', '%41', '%25', '%C3%A9', '%c3%a9', '%e2%82%ac', '+', '%2B', '%20', '%2F', '%00'])
        elif r < 0.9:
            out += chr(rng.randint(32, 126))
        else:
            out += chr(rng.choice([rng.randint(0, 0xd7ff), rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff)]))
    return out


def decodable(s):
    """whether all escapes of s are UTF-8 (what replaces broken UTF-8 is up to the platform)"""
    try:
        urllib.parse.unquote(s, 'utf-8', 'strict')
        return True
    except UnicodeDecodeError:
        return False


class CHECK(CallCheck):
    id = 'U02'
    n = 1600
    rule = 'text with separators, control characters, escapes (valid, broken, upper and lower case) and characters of all planes, as text and as UTF-8, through every conversion; distinct by batch'
    required = ('iri_to_uri', 'uri_to_iri', 'escape_uri_path', 'urlquote', 'urlquote_plus', 'urlunquote', 'text', 'bytes', 'non-ASCII', 'escapes', 'safe', 'empty', 'None', 'number', 'long')

    def one(self, rng, tags):
        t = text(rng)
        if not t:
            tags.add('empty')
        if any(ord(c) > 127 for c in t):
            tags.add('non-ASCII')
        if len(t) > 1000:
            tags.add('long')
        if '%' in t:
            tags.add('escapes')
        uni = rng.random() < 0.6
        tags.add('text' if uni else 'bytes')
        a = t if uni else t.encode('utf-8')
        op = rng.choice(['iri', 'iri', 'round', 'uri', 'path', 'quote', 'plus', 'special'])
        if op == 'special':
            f = rng.choice(['iri_to_uri', 'uri_to_iri'])
            v = rng.choice([None, 7]) if f == 'iri_to_uri' else None
            tags.add('None' if v is None else 'number')
            return [(ENCODING + f, [v], {})], (op, f, None if v is None else str(v))
        if op == 'iri':
            tags.add('iri_to_uri')
            u = pct(t, IRI_SAFE)
            return [(ENCODING + 'iri_to_uri', [a], {}), (ENCODING + 'iri_to_uri', [u], {})], (op, t, u)
        if op in ('round', 'uri'):
            tags.add('uri_to_iri')
            u = pct(t, IRI_SAFE) if op == 'round' else t
            if op == 'uri':
                u = ''.join(c for c in u if ord(c) < 0x10000)       # (Jython's re cannot take characters beyond that)
            if not decodable(u):
                u = u.replace('%', '')
            return [(ENCODING + 'uri_to_iri', [u if uni or op == 'uri' else u.encode()], {})], (op, u, urllib.parse.unquote(u, 'utf-8').encode('utf-8'))
        if op == 'path':
            tags.add('escape_uri_path')
            ep = rng.random() < 0.6
            return [(ENCODING + 'escape_uri_path', [a], {} if ep and rng.random() < 0.5 else {'encode_percent': ep})], (op, t, pct(t, PATH_SAFE if ep else PATH_SAFE | {'%'}))
        plus = op == 'plus'
        safe = rng.choice([None, '', '/', '/:', '~', '%', ' ']) if not plus else rng.choice([None, '', '/'])
        if safe is not None:
            tags.add('safe')
        eff = ('' if plus else '/') if safe is None else safe
        q = pct(t, QUOTE_SAFE | set(eff), plus)
        name = 'urlquote_plus' if plus else 'urlquote'
        tags.add(name)
        tags.add('urlunquote')
        un = 'urlunquote_plus' if plus else 'urlunquote'
        return [(HTTP + name, [a] + ([] if safe is None else [safe]), {}), (HTTP + un, [q], {})], (op, t, q, '%' not in eff)

    def judge_one(self, ps, x, r):
        op, t = x[:2]
        if op in ('quote', 'plus'):
            got = r[0].replace('~', '%7E') if isinstance(r[0], str) else r[0]
            if got != norm(x[2].replace('~', '%7E')) and not (isinstance(got, L) and '~' in x[2]):
                ps.append(Problem('%r is quoted as %r instead of %r' % (t, r[0], x[2]), 'quote'))
            if x[3] and r[1] != norm(t):
                ps.append(Problem('%r is unquoted to %r instead of %r' % (x[2], r[1], t), 'unquote'))
            return
        for got in r:
            if got != norm(x[2]):
                ps.append(Problem('%s: %r gives %r instead of %r' % (op, t, got, x[2]), op))
