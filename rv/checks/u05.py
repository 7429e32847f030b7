import string
import unicodedata

from .common import *
from .u01 import CallCheck, HTTP, part

SPECIAL = ('http', 'https', 'ftp', 'ws', 'wss', 'file')
C0 = ''.join(map(chr, range(33)))


def resolve(url, base):
    """Where a browser goes from a page of the scheme `base`: 'current', 'nowhere', or (scheme, host and port).
    After the URL standard: basic URL parser."""
    url = url.strip(C0)
    for ch in '\t\r\n':
        url = url.replace(ch, '')
    scheme, rest = None, url
    i = url.find(':')
    if i > 0 and url[0] in string.ascii_letters and all(c in string.ascii_letters + string.digits + '+-.' for c in url[:i]):
        scheme, rest = url[:i].lower(), url[i + 1:]
    if scheme is not None:
        if scheme not in SPECIAL or scheme == 'file':
            return (scheme, None)
        if scheme == base and not rest.startswith('//'):
            scheme = None
    if scheme is None:
        scheme = base
        if not (len(rest) > 1 and rest[0] in '/\\' and rest[1] in '/\\'):
            return 'current'
    rest = rest.lstrip('/\\')
    end = min([j for j in map(rest.find, '/\\?#') if j >= 0] + [len(rest)])
    host = rest[:end].rpartition('@')[2]
    if not host or any(c.isspace() or unicodedata.category(c) == 'Cc' for c in host):
        return 'nowhere'        # forbidden in hosts, or mapped to such by IDNA
    return (scheme, host.lower())


HOSTS = ['good.example', 'good.example:8000', 'h', '[::1]', '[::1]:80', 'a.b', 'xn--p1ai', '10.0.0.1', 'Good.Example']
EVIL = ['evil.example', 'evil', 'good.example.evil', 'evilgood.example', '[::2]', 'good.example:80']


def hostile(rng, allowed):
    s = ''
    for _ in range(rng.randint(1, 9)):
        s += gen.pick(rng, [(4, rng.choice(['/', '//', '///', '\\', '\\\\', '/\\', '\\/'])),
                            (2, rng.choice(['http', 'https', 'HTTP', 'hTTps', 'ftp', 'javascript', 'data', 'ws', 'a', '1', 'file', 'http:', 'https:', 'http://', 'https://', 'HTTPS://'])),
                            (2, rng.choice([':', '@', '?', '#', ';', '.', '%2f', '%5c', '&', '=', '[', ']', ':80', 'u:p@', '%00'])),
                            (2, rng.choice(['\t', '\n', '\r', ' ', '\x00', '\x08', '\x0b', '\x0c', '\x1b', '\x1c', '\x1f', '\x7f', '\x85', '\xa0', '\u2028', '\u3000', '\u200b', '\ufeff', '\u3002', '\uff0f'])),
                            (3, rng.choice(EVIL + list(allowed) * 2 or ['x'])),
                            (1, part(rng, 'ab/:.', 3))])
    return s


def authority(rng, allowed):
    """almost an absolute URL of an allowed host"""
    h = rng.choice(list(allowed) or EVIL)
    e = rng.choice(EVIL)
    netloc = gen.pick(rng, [(2, h), (1, h + '@' + e), (1, e + '@' + h), (1, h + ':80'), (1, h + '.'), (1, h + '\\@' + e), (1, e + '\\@' + h), (1, e + '\\.' + h), (1, h + '#@' + e),
                            (1, h + '?@' + e), (1, h + ';@' + e), (1, e + '#' + h), (1, e + '\\' + h), (1, h + e), (1, e + ':' + h), (1, h + ':80@' + e), (1, h + '\t.' + e), (1, ':@' + h), (1, e)])
    scheme = rng.choice(['http:', 'https:', '', '', 'HTTP:', 'ftp:', 'javascript:', 'http:http:', ':', 'h\ttp:', ' http:', 'wss:', 'https'])
    slashes = rng.choice(['//', '//', '//', '/', '///', '', '\\\\', '/\\', '\\/', '/\t/', '/ /', '////', '//\\', '/\x00/'])
    return rng.choice(['', '', '', ' ', '\n', '\x01', '\x00 ', '\x1f', '\t ', '\u200b']) + scheme + slashes + netloc + rng.choice(['', '', '/', '/x', '?y', '#z', '\\w', '/' + e, '//' + e])


TEXT = 'ab0-_.~%/?#=&;:@!*()+,é\u20acж\U0001f600 \'"<>|^`{}[]'


def plain(rng):
    """a relative URL that no parser could take for anything else"""
    s = rng.choice(['/', '/', '/a', 'a/', '?', '#', './', '../', 'page', 'a b/', 'é/', '/é', ''])
    rest = part(rng, TEXT, 12) if rng.random() < 0.97 else gen.text_of(rng, TEXT, gen.large(rng, 20, 5000))
    if rng.random() < 0.3:
        rest += rng.choice(['?next=http://evil.example/', '#//evil', '/x//evil', '?q=\\', '?a://b', '/:80', '/@evil', '/http://evil'])
    if s == '/':
        rest = rest.lstrip('/')
    elif s in ('', 'page'):
        rest = rest.lstrip('/:?#').replace(':', '')
        if s == '' and (not rest or unicodedata.category(rest[0])[0] == 'C'):
            rest = 'p' + rest
        rest = rest.split('http')[0]
    return s + rest if (s + rest).strip() else 'p'


def domain(rng):
    return '.'.join(part(rng, 'ab-', 2) + rng.choice('abc') for _ in range(rng.randint(1, 4)))


class CHECK(CallCheck):
    id = 'U05'
    n = 2400
    rule = ('URLs composed of slashes, backslashes, schemes, white space and control characters, hosts, user info, ports, and near misses of absolute URLs of allowed hosts, resolved by the checker as the URL standard '
            'has browsers do it from http and https pages; plain relative URLs and URLs of allowed hosts; hosts and patterns derived from each other; distinct by batch')
    required = ('accepted', 'refused', 'relative', 'absolute', 'hosts None', 'hosts text', 'hosts set', 'https required', 'text', 'bytes', 'current', 'foreign', 'nowhere', 'foreign scheme', 'same domain', 'other domain',
                'wildcard', 'no pattern', 'escaped', 'unchanged', 'no url', 'long', 'many hosts')
    assumptions = ['a current page is http or https', 'hosts with empty labels are not judged']

    def allowed(self, rng, tags):
        r = rng.random()
        if r < 0.2:
            tags.add('hosts None')
            return None, set()
        if r < 0.4:
            tags.add('hosts text')
            h = rng.choice(HOSTS)
            return (h if rng.random() < 0.5 else h.encode()), {h}
        tags.add('hosts set')
        hs = set(rng.choice(HOSTS) for _ in range(rng.randint(0, 3)))
        if rng.random() < 0.01:
            hs |= set('h%d.example' % i for i in range(gen.large(rng, 10, 300)))
            tags.add('many hosts')
        return hs, hs

    def one(self, rng, tags):
        op = gen.pick(rng, [(6, 'hostile'), (5, 'authority'), (3, 'plain'), (2, 'good'), (3, 'domain'), (2, 'slashes'), (0.2, 'none')])
        if op == 'domain':
            d = domain(rng)
            h = gen.pick(rng, [(2, d), (2, domain(rng) + '.' + d), (1, domain(rng)), (1, 'x' + d), (1, d + '.x'), (1, d[1:].lstrip('.') or 'y'), (1, d.upper())])
            p = gen.pick(rng, [(2, d), (3, '.' + d), (1, d.upper()), (1, ('.' + d).upper()), (0.5, ''), (0.5, None), (0.5, '.' + h), (0.5, h), (0.5, d.title())])
            if rng.random() < 0.01:
                z = '.'.join('l' + domain(rng) for _ in range(gen.large(rng, 5, 100)))
                h, p = h + '.' + z, p + '.' + z if p else p
            if '..' in h or '..' in (p or ''):
                p = h = 'a.b'
            if not p:
                want = False
                tags.add('no pattern')
            else:
                low = p.lower()
                hl, pl = h.split('.'), low.lstrip('.').split('.')
                want = hl[-len(pl):] == pl and (low[0] == '.' or len(hl) == len(pl))
                if low[0] == '.':
                    tags.add('wildcard')
            tags.add('same domain' if want else 'other domain')
            if rng.random() < 0.5:
                h = h.encode()
            return [(HTTP + 'is_same_domain', [h, p], {})], ('domain', h, p, want)
        if op == 'slashes':
            s = part(rng, '//\\a%é\u20ac', 5) if rng.random() < 0.98 else gen.text_of(rng, '/a', gen.large(rng, 10, 5000))
            if rng.random() < 0.5:
                s = '//' + s
            w = '/%2F' + s[2:] if s[:2] == '//' else s
            tags.add('escaped' if s != w else 'unchanged')
            if rng.random() < 0.5:
                s, w = s.encode(), w.encode()
            return [(HTTP + 'escape_leading_slashes', [s], {})], ('slashes', s, w)
        given, hosts = self.allowed(rng, tags)
        https = rng.random() < 0.35
        kw = {}
        if https:
            kw['require_https'] = True
            tags.add('https required')
        must = False
        if op == 'none':
            tags.add('no url')
            url = rng.choice([None, '', ' ', '\t'])
            return [(HTTP + 'is_safe_url', [url, given], kw)], ('empty', url)
        if op == 'plain':
            url, must = plain(rng), True
            tags.add('relative')
        elif op == 'good' and hosts:
            sch = 'https://' if https else rng.choice(['http://', 'https://', '//', 'HTTP://', 'hTTps://'])
            rest = (part(rng, TEXT, 8) if rng.random() < 0.97 else gen.text_of(rng, TEXT, gen.large(rng, 20, 5000))).replace('\\', '')
            url, must = sch + rng.choice(sorted(hosts)) + (rest if rest[:1] in ('/', '?', '#', '') else '/' + rest), True
            tags.add('absolute')
        elif op == 'authority':
            url = authority(rng, hosts)
        else:
            url = hostile(rng, hosts)
        if must and rng.random() < 0.1:
            url = rng.choice([' ', '\n']) + url + rng.choice([' ', '\n', ''])
        if not must and rng.random() < 0.01:
            # (the hostile part may come late)
            url = rng.choice(['/', 'a/', 'http://', '?', '\\']) + 'a' * gen.large(rng, 50, 5000) + url
        if len(url) > 1000:
            tags.add('long')
        where = [resolve(url, 'http'), resolve(url, 'https')]
        for w in where:
            tags.add('foreign scheme' if w[1] is None else 'foreign' if isinstance(w, tuple) else w)
        raw = url
        if rng.random() < 0.35:
            raw = url.encode('utf-8')
            tags.add('bytes')
        else:
            tags.add('text')
        return [(HTTP + 'is_safe_url', [raw, given], kw)], ('safe', url, {h.lower() for h in hosts}, https, must, where, tags)

    def judge_one(self, ps, x, r):
        r = r[0]
        if x[0] == 'domain':
            if is_exc(r) or bool(r) != x[3]:
                ps.append(Problem('is_same_domain(%r, %r) is %r' % (x[1], x[2], r), 'domain'))
        elif x[0] == 'slashes':
            if r != norm(x[2]):
                ps.append(Problem('escape_leading_slashes(%r) is %r' % (x[1], r), 'slashes'))
        elif x[0] == 'empty':
            if is_exc(r) or r:
                ps.append(Problem('is_safe_url(%r) is %r' % (x[1], r), 'empty'))
        else:
            _, url, hosts, https, must, where, tags = x
            if is_exc(r):
                ps.append(Problem('is_safe_url(%r) raises %r' % (url, r), 'error'))
            elif r:
                self.seen('accepted')
                for w in where:
                    if isinstance(w, tuple) and (w[1] not in hosts or w[0] not in (('https',) if https else ('http', 'https'))):
                        ps.append(Problem('is_safe_url(%r, %r%s) is true, but a browser goes to %r' % (url, sorted(hosts), ', https' if https else '', w), 'unsafe'))
                        break
            else:
                self.seen('refused')
                if must:
                    ps.append(Problem('is_safe_url(%r, %r%s) is %r, though it is harmless' % (url, sorted(hosts), ', https' if https else '', r), 'refused'))
