from .common import *
from .u01 import CallCheck, HTTP, part

INSIDE = 'ab,, *W/\\;\t!#é\u20ac'


def valid(s):
    core = s[2:] if s.startswith('W/') else s
    return len(core) >= 2 and core[0] == core[-1] == '"' and '"' not in core[1:-1]


def tag(rng):
    return rng.choice(['', '', 'W/']) + '"' + part(rng, INSIDE, 8) + '"'


def broken(rng):
    t = part(rng, 'ab*W/;é', 5)
    return rng.choice([t, t, '', '*', 'W/', 'w/"a"', 'W/ "a"', 'W"a"', 'x"a,b"', '"a"x', '"a" "b"', '"a""b"', 'W/W/"a"', '/"a"', '""a""', 'W/*', "'a'"])


class CHECK(CallCheck):
    id = 'U06'
    n = 1680
    rule = 'lists of weak and strong entity tags of any characters (also commas, white space, asterisks) with members that are no entity tags between them; valid, nearly valid and arbitrary text to quote; distinct by batch'
    required = ('list', 'weak', 'strong', 'comma inside', 'dropped', 'star', 'star in list', 'empty list', 'quote', 'valid kept', 'quoted', 'line end', 'text', 'bytes', 'long', 'unclosed')
    assumptions = ['a quote that is never closed spoils only what follows it']

    def one(self, rng, tags):
        uni = rng.random() < 0.6
        tags.add('text' if uni else 'bytes')
        conv = (lambda s: s) if uni else (lambda s: s.encode())
        r = rng.random()
        if r < 0.08:
            tags.add('star')
            s = rng.choice(['*', ' *', '* ', '\t*\t'])
            return [(HTTP + 'parse_etags', [conv(s)], {})], ('list', s, ['*'], conv)
        if r < 0.6:
            tags.add('list')
            members = []
            for _ in range(gen.pick(rng, [(5, rng.randint(0, 6)), (0.2, 60), (0.02, gen.large(rng, 60, 1000))])):
                members.append(tag(rng) if rng.random() < 0.7 else broken(rng))
            if rng.random() < 0.02:
                members.append('"' + part(rng, 'ab,', 3) * 4000 + '"')
                tags.add('long')
            want = [m for m in members if valid(m)]
            if not want:
                tags.add('empty list')
            if len(want) < len(members):
                tags.add('dropped')
            for m in want:
                tags.add('weak' if m[0] == 'W' else 'strong')
                if ',' in m:
                    tags.add('comma inside')
            if '*' in members and len(members) > 1:
                tags.add('star in list')
            if rng.random() < 0.07:
                tags.add('unclosed')
                members.append(rng.choice(['"', 'W/"', 'a"']) + part(rng, 'ab ', 3))
            ws = ['', '', ' ', '  ', '\t', ' \t']
            s = ','.join(rng.choice(ws) + m + rng.choice(ws) for m in members)
            if s.strip() == '*':
                want = ['*']
            return [(HTTP + 'parse_etags', [conv(s)], {})], ('list', s, want, conv)
        tags.add('quote')
        s = gen.pick(rng, [(3, tag(rng)), (3, broken(rng)), (3, part(rng, INSIDE, 8)), (1, tag(rng) + rng.choice(['\n', ' ', '"'])), (1, rng.choice(['\n', ' ', 'W']) + tag(rng)), (0.5, '"'), (0.5, 'W/"')])
        if s.endswith('\n'):
            tags.add('line end')
        want = s if valid(s) else '"%s"' % s
        tags.add('valid kept' if valid(s) else 'quoted')
        return [(HTTP + 'quote_etag', [conv(s)], {}), (HTTP + 'quote_etag', [conv(want)], {})], ('quote', s, want, conv)

    def judge_one(self, ps, x, r):
        kind, s, want, conv = x
        if kind == 'list':
            if is_exc(r[0]) or r[0] != [norm(conv(w)) for w in want]:
                ps.append(Problem('parse_etags(%r) is %r instead of %r' % (s[:300], r[0], want), 'list'))
        else:
            if r[0] != norm(conv(want)):
                ps.append(Problem('quote_etag(%r) is %r' % (s, r[0]), 'quote'))
            if valid(want) and r[1] != norm(conv(want)):
                ps.append(Problem('quote_etag(%r), a valid entity tag, is %r' % (want, r[1]), 'keep'))
