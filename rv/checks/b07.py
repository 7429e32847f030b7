from .common import *


class CHECK(Check):
    id = 'B07'
    warm = 0.06
    n = 1800
    rule = ('one request with a number of parameters around the limit in its query string, form body or multipart body; refused with TooManyFieldsSent or not is compared with the number it was '
            'made with; distinct by bytes, delivery and limit')
    required = ('query', 'form', 'multipart', 'refused', 'accepted', 'at-limit', 'over-by-one', 'unlimited', 'empty-segments', 'files-not-counted', 'semicolons', 'both-at-limit', 'default-limit', 'many fields', 'large limit')

    def segs(self, rng, n, tags):
        """n segments"""
        out = b''
        for i in range(n):
            if i:
                s = rng.choice([b'&', b'&', b';'])
                if s == b';':
                    tags.append('semicolons')
                out += s
            k = rng.random()
            s = b'' if k < 0.12 else b'a' if k < 0.2 else b'k%d=%s' % (rng.randint(0, 5), rng.choice([b'', b'v', b'%26', b'a=b', b'%3B', b'1+2']))
            if not s:
                tags.append('empty-segments')
            out += s
        if n == 1 and not out:
            out = b'a'
        return out

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            k = rng.random()
            limit = None if k < 0.1 else rng.choice([1, 1, 2, 3, 5, 8, 20, 100] if rng.random() < 0.97 else [200, 500, 1000, gen.large(rng, 100, 5000)])
            base = limit or 5

            def count():
                return max(0, base + rng.choice([-1, 0, 0, 0, 1, 1, 2, 10, -base]))
            kind = rng.choice(['query', 'form', 'form', 'multipart', 'multipart'])
            tags = [kind]
            st = {'DATA_UPLOAD_MAX_FIELDS': limit, 'DATA_UPLOAD_MAX_MEMORY': None}
            nq = count() if kind == 'query' else rng.choice([0, 1, base])
            if rng.random() < 0.01:
                limit, st = 4096, None
                base = 4096
                nq = 4096 + rng.choice([0, 1])
                kind = 'query'
                tags.append('default-limit')
            q = self.segs(rng, nq, tags)
            hs, m, nb = None, None, 0
            if kind == 'multipart':
                n = count()
                if n > 25 and rng.random() < 0.9:
                    n = rng.randint(0, 3)
                if n > 25:
                    tags.append('many fields')
                head, body, m = gen.multipart(rng, fields=(n, n), files=(0, 4), bad=(0, 1), sizes=[0, 10, 30], field_sizes=[0, 3])
                nb = n
                head = head.replace(b'/up ', b'/up' + (b'?' + q if q else b'') + b' ')
                hs = ['conv']
                if any(p['kind'] == 'file' for p in m['parts']) and limit is not None and n == limit:
                    tags.append('files-not-counted')
            else:
                nb = count() if kind == 'form' else rng.choice([0, 1, base])
                body = self.segs(rng, nb, tags)
                head = b'POST /a' + (b'?' + q if q else b'') + b' HTTP/1.1\r\nHost: a.com\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n'
            if limit and limit > 150:
                tags.append('large limit')
            if limit is None:
                tags.append('unlimited')
                want = None
            else:
                want = 'header' if nq > limit else 'body' if nb > limit else None
                n = nq if kind == 'query' else nb
                tags += ['at-limit'] if n == limit else ['over-by-one'] if n == limit + 1 else []
                tags += ['both-at-limit'] if nq == nb == limit else []
            data = head + body
            yield Case(req(data, [['header'], ['parse_body'], ['snap', ['data']]] if rng.random() < 0.5 else [['parse'], ['snap', ['data']]],
                           gen.cuts(rng, len(data), [len(head)]), st, hs, 'up' if hs else None), {'want': want, 'n': (nq, nb), 'limit': limit}, tags)

    def judge(self, c, res):
        r = steps(res)
        x = c.x
        what = '%d in the query and %d in the body with a limit of %s' % (x['n'] + (x['limit'],))
        excs = [(s[0], v) for s, v in zip(c.job['steps'], r) if is_exc(v)]
        if x['want'] is None:
            self.seen('accepted')
            if excs:
                return [Problem('%s: %r' % (what, excs), 'refused')]
            return []
        self.seen('refused')
        if not excs or not is_exc(excs[0][1], 'TooManyFieldsSent'):
            return [Problem('%s: not refused: %r' % (what, excs), 'not-refused')]
        if x['want'] == 'body' and excs[0][0] == 'header':
            return [Problem('%s: the head is refused' % what, 'refused-head')]
        if x['want'] == 'header' and excs[0][0] == 'parse_body':
            return [Problem('%s: the head is not refused' % what, 'not-refused-head')]
        s = r[-1]
        if excs[0][0] == 'header':
            return []       # (it is up to the caller not to go on)
        if is_exc(s) or s['POST'] or s['FILES']:
            return [Problem('%s: reported: %r' % (what, s), 'reported')]
        return []
