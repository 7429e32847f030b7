import urllib.parse

from .common import *
from .c01 import je

ENCODINGS = {'utf-8': 'é\u20acж中\u07ff\u0800\uffff\U0001f600', 'ISO-8859-1': 'é\xff\x80\xa0', 'koi8-r': 'жЖ\u2500', 'windows-1252': 'é\u20ac', 'windows-1251': 'ж\u20ac', 'us-ascii': '', 'UTF-8': 'é', 'iso-8859-15': '\u20ac'}
SEPARATORS = '&=;+% #?/:,%2F%26'
PUNCT = '/:,!*~@$()\'"<>[]{}|\\^`?-._'


def text(rng, enc, lo=0):
    extra = ENCODINGS[enc]
    n = max(lo, gen.pick(rng, [(1, 0), (3, 1), (3, 3), (2, 8)]))
    if rng.random() < 0.004:
        n = gen.large(rng, 30, 2500)
    pool = 'abcXYZ019' + SEPARATORS + PUNCT + '\r\n\t\x00\x7f\x1f'
    return ''.join(rng.choice(extra) if extra and rng.random() < 0.25 else rng.choice(['%41', '%', '%zz', '%%', '+', '&&']) if rng.random() < 0.08 else rng.choice(pool) for _ in range(n))


def decode(s, enc):
    """the pairs of an encoded string"""
    out = []
    for p in s.split('&') if s else []:
        k, v = p.split('=', 1)
        out.append((urllib.parse.unquote_plus(k, enc, 'strict'), urllib.parse.unquote_plus(v, enc, 'strict')))
    return out


def grouped(pairs):
    g = {}
    for k, v in pairs:
        g.setdefault(k, []).append(v)
    return g


def plain(v, enc):
    return v.decode(enc) if isinstance(v, bytes) else v if isinstance(v, str) else str(v)


class CHECK(Check):
    id = 'C03'
    n = 450
    thorough = 14
    rule = ('query dictionaries (made and filled in all ways, in all encodings, copied) and mappings and pair lists are URL-encoded, decoded by the checker\'s own decoder and parsed back by the code (also as the query of a request); '
            'distinct by encoding, content and options')
    required = ('qd', 'dict', 'pairs', 'mvd', 'gen', 'tuples', 'None refused', 'None in list', 'safe', 'repeated', 'empty value', 'empty key', 'non-ASCII', 'bytes', 'number', 'fromkeys', 'other encoding than settings', 'doseq', 'no doseq', 'copied', 'many values', 'many keys', 'long value')

    def cases(self):
        for i in range(self.n * self.scale):
            calls, xs, tags = [], [], set()
            for _ in range(4):
                c, x = self.one(self.rng, tags)
                calls.append(c)
                xs.append(x)
            yield Case({'op': 'qs', 'calls': calls, 'whole': True}, xs, sorted(tags))

    def one(self, rng, tags):
        if rng.random() < 0.6:
            tags.add('qd')
            enc = rng.choice(list(ENCODINGS))
            charset = enc if rng.random() < 0.5 else rng.choice(['utf-8', 'ISO-8859-1', 'koi8-r'])
            if charset != enc:
                tags.add('other encoding than settings')
            how = rng.choice(['append', 'setlist', 'item', 'assign', 'fromkeys'])
            d = {}
            for _ in range(rng.randint(0, 4) if rng.random() < 0.99 else gen.large(rng, 10, 300)):
                k = text(rng, enc)
                if k in d:
                    continue
                d[k] = []
                for _ in range(gen.pick(rng, [(4, 1), (2, 2), (1, 3), (0.5, 0), (0.04, gen.large(rng, 10, 300))])):
                    v = text(rng, enc)
                    r = rng.random()
                    if r < 0.1:
                        v = v.encode(enc)
                        tags.add('bytes')
                    elif r < 0.15:
                        v = rng.choice([0, 7, -3])
                        tags.add('number')
                    d[k].append(v)
            if how == 'fromkeys':
                first = [v for l in d.values() for v in l][:1] or ['']
                if not d or not list(d.values())[0]:
                    d = {'k': first}
                first = list(d.values())[0][0]
                d = dict((k, [first] * len(l)) for k, l in d.items() if l)
                tags.add('fromkeys')
            items = [(k, l) for k, l in d.items()]
            if how in ('append', 'item'):
                items = [(k, l) for k, l in items if l]
            for k, l in items:
                if len(l) > 100:
                    tags.add('many values')
                if any(isinstance(v, str) and len(v) > 1000 for v in l):
                    tags.add('long value')
                if len(l) > 1:
                    tags.add('repeated')
                if '' in l:
                    tags.add('empty value')
                if k == '' and l:
                    tags.add('empty key')
                if any(ord(x) > 127 for x in k):
                    tags.add('non-ASCII')
            if len(items) > 40:
                tags.add('many keys')
            safe = None
            if rng.random() < 0.4:
                safe = ''.join(rng.sample('/:,!*~@$()\'?', rng.randint(0, 4)))
                tags.add('safe')
            copied = rng.choice([None, None, 'copy', 'copy', 'deepcopy', 'shallow']) if how != 'fromkeys' else None
            jitems = [[{'b': k.encode(enc).decode('latin-1')} if rng.random() < 0.1 and all(ord(x) < 128 for x in k) else {'u': k}, [je(v) for v in l]] for k, l in items]
            if copied:
                tags.add('copied')
            c = {'what': 'qd', 'encoding': enc, 'charset': charset, 'how': how, 'mutable': rng.random() < 0.5, 'safe': None if safe is None else {'u': safe}, 'items': jitems, 'copied': copied}
            return c, ('qd', enc, items, safe)
        what = rng.choice(['dict', 'pairs', 'mvd', 'gen', 'tuples'])
        tags.add(what)
        doseq = what in ('mvd', 'gen') or rng.random() < 0.5
        tags.add('doseq' if doseq else 'no doseq')
        items = []
        many = rng.random() < 0.006
        for i in range(rng.randint(0, 4) if not many else gen.large(rng, 10, 1500)):
            k = text(rng, 'utf-8') if not many else 'k%d' % i
            if what != 'pairs' and what != 'tuples' and any(k == x for x, _ in items):
                continue
            mk = lambda: gen.pick(rng, [(6, text(rng, 'utf-8') if not many else rng.choice('abé&')), (1, text(rng, 'utf-8').encode('utf-8')), (0.7, rng.choice([0, 5, -12]))])
            v = [mk() for _ in range(rng.randint(0, 3) if not many or i % 500 else gen.large(rng, 10, 700))] if what in ('mvd', 'gen') or doseq and rng.random() < 0.4 else mk()
            items.append((k, v))
        none = None
        if rng.random() < 0.15:
            if what in ('mvd', 'gen') or doseq and rng.random() < 0.5 or not doseq and rng.random() < 0.3:
                items.append(('none', rng.choice([[None], ['x', None], [None, '']])))
                none = 'None in list'
            else:
                items.append(('none', None))
                none = 'None refused'
            tags.add(none)
        c = {'what': what, 'doseq': doseq, 'items': [[je(k), je(v)] for k, v in items]}
        return c, ('util', what, items, none)

    def judge(self, c, res):
        ps = []
        for call, x, r in zip(c.job['calls'], c.x, steps(res)):
            try:
                self.judge_one(ps, x, r)
            except (ValueError, UnicodeDecodeError) as e:
                ps.append(Problem('%r encoded as %r cannot be decoded: %r' % (x, r, e), 'decode'))
        return ps

    def judge_one(self, ps, x, r):
        if x[0] == 'qd':
            _, enc, items, safe = x
            if is_exc(r):
                ps.append(Problem('%r: %r' % (x, r), 'refused'))
                return
            s, back, again, get, own = r
            if not isinstance(s, str) or any(ord(ch) > 126 or ord(ch) < 33 for ch in s):
                ps.append(Problem('%r encoded as %r is not printable ASCII' % (x, s), 'ascii'))
                return
            want = dict((k, [plain(v, enc) for v in l]) for k, l in items if l)
            for got, name in ((s, 'urlencode()'), (again, 'encoding it again')):
                if grouped(decode(got, enc)) != want:
                    ps.append(Problem('%s in %s: %r is %r instead of %r' % (name, enc, got, decode(got, enc), want), 'encode'))
            for got, name in ((back, 'parsed back'), (get, 'as the query of a request')):
                if not lists_equal(got, list(want.items())):
                    ps.append(Problem('%r %s in %s is %r instead of %r' % (s, name, enc, got, want), 'parse'))
            for ch in safe or '':
                if urllib.parse.quote(ch, safe='').lower() in s.lower() and '%' in urllib.parse.quote(ch, safe='') or s.count(ch) != sum(k.count(ch) * len(l) + sum(v.count(ch) for v in l) for k, l in want.items()):
                    ps.append(Problem('safe character %r is escaped in %r' % (ch, s), 'safe'))
        else:
            _, what, items, none = x
            if none:
                if not is_exc(r, 'TypeError'):
                    ps.append(Problem('None in %r is not refused: %r' % (items, r), 'none'))
                return
            if is_exc(r):
                ps.append(Problem('%r: %r' % (x, r), 'refused'))
                return
            s, back = r
            pairs = []
            for k, v in items:
                pairs += [(k, plain(y, 'utf-8')) for y in (v if isinstance(v, list) else [v])]
            if not isinstance(s, str) or any(ord(ch) > 126 or ord(ch) < 33 for ch in s):
                ps.append(Problem('%r encoded as %r is not printable ASCII' % (x, s), 'ascii'))
                return
            got = decode(s, 'utf-8')
            order = (lambda z: z) if what in ('pairs', 'tuples', 'gen') else grouped
            if order(got) != order(pairs):
                ps.append(Problem('%r encoded as %r is %r instead of %r' % (items, s, got, pairs), 'encode'))
            if order([norm(tuple(z)) for z in back]) != order([norm(z) for z in pairs]):
                ps.append(Problem('%r parsed back is %r instead of %r' % (s, back, pairs), 'parse'))
