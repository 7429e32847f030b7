from urllib.parse import unquote_to_bytes

from .common import *

ALNUM = gen.LETTERS + '0123456789'
PATH_SAFE = set(ALNUM + "/:@&+$,-_.!~*'()%")
QUERY_SAFE = set(ALNUM + "_.-" + "/#%[]=:;$&()+,!?*@'~")


def quote(s, safe):
    return ''.join(chr(c) if chr(c) in safe and c < 128 else '%%%02X' % c for c in s.encode('utf-8'))


TEXTS = ['/caf\u00e9', '/\u2603/x', '/a b', '/a%20b', '/100%', '/%', '/%zz', '/%C3%A9', '/a?b#c', '/a;b=c', '/\U0001F600', '/[x]', '/"<>\\^`{|}', '', 'rel',
         '/\u0001\u007f', '/%25', '/%2541', '/\u00e9%C3%A9', '//x', '/+', '/a%2fb', '/~user', "/it's", '/a%']


def text(rng):
    if rng.random() < 0.01:
        return '/' + gen.text_of(rng, gen.PATHCH + ' \u00e9\u2603"', gen.large(rng, 20, 2000))
    if rng.random() < 0.4:
        return rng.choice(TEXTS) + rng.choice(['', '', rng.choice(TEXTS)])
    return ''.join(gen.pick(rng, [(5, lambda: rng.choice(gen.PATHCH)), (2, lambda: gen.pct(rng)), (1, lambda: chr(rng.randint(0, 127))), (1, lambda: chr(rng.randint(128, 255))),
                                  (1, lambda: chr(rng.randint(256, 0xd7ff))), (0.5, lambda: chr(rng.randint(0x10000, 0x1ffff)))])() for _ in range(rng.randint(0, 14)))


class CHECK(HeadCheck):
    id = 'H05'
    n = 1300
    rule = ('one parsed request whose rendered paths and URIs are compared with an independent percent-encoder, then two set_path() calls; '
            'distinct by request, delivery and path set')
    required = ('escaped', 'untouched', 'set:unicode', 'set:bytes', 'query', 'port', 'no-query', 'raw', 'set:long')

    def options(self, rng):
        return {'large_hi': 3000, 'large': 0.015}

    def cases(self):
        rng = self.rng
        for c in super().cases():
            m = c.x
            t = text(rng)
            how = rng.choice(['unicode', 'bytes'])
            j = dict(c.job)
            full = quote(m['path'], PATH_SAFE)
            q = '?' + quote(m['qs'], QUERY_SAFE) if m['qs'] else ''
            t2 = quote(t, PATH_SAFE)
            j['steps'] = [c.job['steps'][0], ['snap', ['meta', 'uri']], ['call', 'set_path', [b(full)]], ['snap', ['uri']],
                          ['call', 'set_path', [{'u': t} if how == 'unicode' else b(t.encode('utf-8'))]], ['snap', ['meta', 'uri']],
                          ['call', 'set_path', [b(t2)]], ['snap', ['uri']]]
            yield Case(j, dict(m, full=full, q=q, text=t, t2=t2), list(c.tags) + ['set:' + how])

    def judge_hostless_accepted(self, m):
        return [Problem('a request without host is accepted', 'nohost')]

    def judge(self, c, res):
        self.r = steps(res)
        return super().judge(c, res)

    def check(self, m, s0):
        r, ps = self.r, []
        full, q = m['full'], m['q']
        self.seen('escaped' if full != m['path'] else 'untouched', 'query' if q else 'no-query')
        netloc = m['host'] + (':' + m['port'] if m['port'] is not None else '')
        if m['port'] is not None:
            self.seen('port')
        base = m['scheme_out'] + '://' + netloc
        self.rendered(ps, 'parsed', s0, base, m['path'], full, q)
        if is_exc(r[2]) or is_exc(r[4]) or is_exc(r[6]):
            return ps + [Problem('set_path() fails: %r' % [x for x in r[2:] if is_exc(x)], 'set_path')]
        # rendering again what was rendered
        self.rendered(ps, 'rendered again', r[3], base, full, full, q)
        # a path that was set
        s = r[5]
        if not isinstance(s, dict):
            return ps + [Problem('unreadable: %r' % (s,), 'unreadable')]
        stored = s['path']
        if isinstance(stored, L):
            # too long to be handed over whole
            self.seen('set:long')
            stored = m['t2'] if stored == norm(m['t2']) else stored
        if not isinstance(stored, str) or any(not 32 < ord(ch) < 127 for ch in stored):
            return ps + [Problem('set_path(%r) stores %r' % (m['text'], stored), 'set-ascii')]
        if unquote_to_bytes(stored) != unquote_to_bytes(m['text'].encode('utf-8')):
            ps.append(Problem('set_path(%r) stores %r, which is another path' % (m['text'], stored), 'set-decoded'))
        if set(stored) - PATH_SAFE:
            ps.append(Problem('set_path(%r) stores unsafe characters: %r' % (m['text'], stored), 'set-safe'))
        self.rendered(ps, 'set', s, base, stored, stored, q)
        self.rendered(ps, 'set escaped', r[7], base, m['t2'], m['t2'], q)
        return ps

    def rendered(self, ps, what, s, base, path, full, q):
        if not isinstance(s, dict):
            ps.append(Problem('%s: unreadable: %r' % (what, s), 'unreadable'))
            return
        slash = '' if path.endswith('/') else '/'
        for k, e in (('full', full + q), ('full_slash', full + slash + q), ('uri', base + full + q)):
            if s[k] != norm(e):
                ps.append(Problem('%s: %s is %r, expected %r' % (what, k, s[k], e), k))
        for k, e in (('full_raw', full + q), ('uri_raw', full + q)):
            try:
                e = unquote_to_bytes(e).decode('utf-8')
                self.seen('raw')
            except UnicodeDecodeError:
                # how the runtime's codec replaces invalid UTF-8 is not specified
                if is_exc(s[k]):
                    ps.append(Problem('%s: %s fails: %r' % (what, k, s[k]), k))
                continue
            if k == 'uri_raw':
                e = base + e
            g = s[k]
            if g != norm(e.encode('utf-8')):
                ps.append(Problem('%s: %s is %r, expected %r' % (what, k, g, e), k))
