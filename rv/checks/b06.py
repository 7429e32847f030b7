from .common import *
from . import b01


class CHECK(Check):
    id = 'B06'
    warm = 0.06
    n = 1800
    rule = ('one request whose body data lies around the limit, in a random delivery and call plan; refused with RequestDataTooBig or not is compared with the count over what the body was '
            'made of; distinct by bytes, delivery, limit and plan')
    required = ('plain', 'form', 'multipart', 'at-limit', 'over-by-one', 'under', 'unlimited', 'refused', 'accepted', 'limit-0', 'big-file-small-limit', 'base64', 'body()', 'body-then-parse', 'over-64K', 'default-limit', 'large fields', 'large repeated fields', 'large field data')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            kind = rng.choice(['plain', 'form', 'multipart', 'multipart'])
            tags = [kind]
            hs = None
            m = None
            if kind == 'multipart':
                # names are decoded and counted as characters: keep them ASCII
                head, body, m = gen.multipart(rng, fields=(0, 4), files=(0, 2), bad=(0, 1), names=lambda r: gen.word(r, gen.LETTERS, 0, 8).encode(), big=0.03, large=0.025, longs=['fields', 'repeated fields', 'field data', 'files'])
                if m['large']:
                    tags.append('large ' + m['large'])
                fields = [p for p in m['parts'] if p['kind'] == 'field']
                count = sum(len(p['wire']) + len(p['name']) + 2 for p in fields)
                if any(p['te'] == 'base64' for p in fields):
                    tags.append('base64')
                if not fields:
                    count = 0
                hs = [rng.choice(['conv', 'temp'])]
                if rng.random() < 0.4:
                    hs = [{'builtin': hs[0], 'chunk_size': rng.choice([1, 5, 64, 1000]) if len(body) < 3000 else 4096}]
                hot = gen.hot_spots(head, m)
            else:
                k = rng.random()
                if k < 0.8:
                    body = b01.pairs(rng, 'utf-8', False, False)[0] if kind == 'form' else gen.word(rng, gen.LETTERS + '\r\n', 0, 50).encode()
                else:
                    n = rng.choice([65535, 65536, 65537, 131072, 131073, 70000])
                    body = b'a' * n if kind == 'plain' or rng.random() < 0.5 else (b'a=b&' * (n // 4 + 1))[:n]
                    tags.append('over-64K')
                count = len(body)
                ct = b'application/x-www-form-urlencoded' if kind == 'form' else b'text/plain'
                clen = rng.choice([count, 0, 1, count + 100, None])
                head = b'POST /a?b=c HTTP/1.1\r\nHost: a.com\r\nContent-Type: ' + ct + b'\r\n' + (b'Content-Length: %d\r\n' % clen if clen is not None else b'') + b'\r\n'
                hot = [len(head)]
            k = rng.random()
            if k < 0.1:
                limit = None
                tags.append('unlimited')
            elif k < 0.16:
                limit = 0
                tags.append('limit-0')
            elif k < 0.85:
                limit = max(0, count + rng.choice([-2, -1, -1, -1, 0, 0, 0, 1, 2]))
            elif m and fields and rng.random() < 0.7:
                # around the border between two fields
                n = rng.randint(0, len(fields))
                limit = max(0, sum(len(p['wire']) + len(p['name']) + 2 for p in fields[:n]) + rng.randint(-1, 1))
            else:
                limit = rng.randint(0, count + 10)
            tags.append('under' if limit is None or count < limit else 'at-limit' if count == limit else 'over-by-one' if count == limit + 1 else 'over')
            if m and limit is not None and any(p['kind'] == 'file' and len(p['data']) > limit >= count for p in m['parts']):
                tags.append('big-file-small-limit')
            st = {'DATA_UPLOAD_MAX_MEMORY': limit, 'DATA_UPLOAD_MAX_FIELDS': 10 ** 6}
            data = head + body
            if rng.random() < 0.02 and not m:
                # the default limit
                body = b'x' * (5 * 2 ** 20 + rng.choice([0, 1]))
                data = head + body
                st, limit, count = None, 5 * 2 ** 20, len(body)
                tags.append('default-limit')
            plan = rng.choice([[['parse']], [['parse']], [['header'], ['parse_body']]]) if m else \
                rng.choice([[['parse']], [['header'], ['parse_body']], [['header'], ['body']], [['body']], [['header'], ['body'], ['parse_body']]])
            if ['body'] in plan:
                tags.append('body()' if len(plan) < 3 else 'body-then-parse')
            cuts = gen.cuts(rng, len(data), rng.sample(hot, 1))
            if len(data) > 200000 and isinstance(cuts, int):
                cuts = max(cuts, 4096)
            if len(data) > 20000 and not (cuts is None or isinstance(cuts, list)):
                cuts = rng.choice([512, 1000, 4096, 65536, 100000])
            yield Case(req(data, plan + [['snap', ['data']]], cuts, st, hs, 'up' if hs else None), {'big': limit is not None and count > limit, 'limit': limit, 'count': count, 'm': m}, tags)

    def judge(self, c, res):
        r = steps(res)
        x = c.x
        excs = [v for v in r[:-1] if is_exc(v)]
        if x['big']:
            self.seen('refused')
            if not excs or not is_exc(excs[0], 'RequestDataTooBig'):
                return [Problem('%d bytes with a limit of %s are not refused: %r' % (x['count'], x['limit'], excs), 'not-refused')]
            if is_exc(r[-1]) or r[-1]['POST'] or r[-1]['FILES']:
                return [Problem('data of a refused body is reported: %r' % (r[-1],), 'reported')]
            return []
        self.seen('accepted')
        if excs:
            return [Problem('%d bytes with a limit of %s: %r' % (x['count'], x['limit'], excs), 'refused')]
        ps = []
        if x['m']:
            check_post(ps, r[-1]['POST'], gen.want_post(x['m']['parts']))
        return ps
