from .common import *


class CHECK(Check):
    id = 'B05'
    warm = 0.06
    n = 1600
    rule = ('one multipart request whose file sizes lie around the memory limit and chunk borders; where every file is and what it holds (and its file on disk) is compared with the rule; '
            'distinct by bytes, delivery, limit and handlers')
    required = ('conv', 'mem', 'temp', 'mem+temp', 'in-memory', 'on-disk', 'both', 'at-limit', 'over-limit-by-one', 'switched-within-a-file', 'empty-after-switch', 'clen-at-limit', 'clen-over', 'big', 'large limit', 'many files')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            hs, names = gen_handlers(rng)
            limit = rng.choice([0, 1, 2, 10, 64, 100, 1000, 4096, 65535, 65536, 65537, 131072] if rng.random() < 0.15 else [0, 1, 2, 5, 10, 20, 50, 64, 100])
            if rng.random() < 0.02:
                limit = gen.large(rng, 130000, 3 << 20)
            k = rng.randint(1, 4)
            if rng.random() < 0.015:
                k = gen.large(rng, 5, 80)
            # sizes that sum up to about the limit
            left = limit
            sizes = []
            for _ in range(k):
                x = rng.choice([0, left, left + 1, max(0, left - 1), rng.randint(0, limit + 2), left // 2, rng.randint(0, 30)])
                sizes.append(x)
                left = max(0, left - x)
            if rng.random() < 0.3:
                rng.shuffle(sizes)
            it = iter(sizes)
            size_of = list(sizes)
            head, body, m = None, None, None
            clen = (lambda r, n: max(1, r.choice([limit, limit + 1, limit - 1, n]))) if 'mem' in names else (lambda r, n: r.choice([n, 1, limit + 1]))
            o = {'fields': (0, 1), 'files': (k, k), 'bad': (0, 0), 'clen': clen, 'sizes': sorted(set(sizes))}
            head, body, m = gen.multipart(rng, **o)
            files = [p for p in m['parts'] if p['kind'] == 'file']
            tags = [names]
            total = 0
            for j, p in enumerate(files):
                t = total + len(p['data'])
                if names == 'conv':
                    tags += ['at-limit'] if t == limit and limit else []
                    tags += ['over-limit-by-one'] if t == limit + 1 else []
                    tags += ['switched-within-a-file'] if 0 <= total <= limit < t and total != limit else []
                    tags += ['empty-after-switch'] if total > limit and not p['data'] else []
                total = t
            if k > 20:
                tags.append('many files')
            if limit > 131072:
                tags.append('large limit')
            if len(body) > 60000:
                tags.append('big')
            if m['clen'] == limit and 'mem' in names:
                tags.append('clen-at-limit')
            if m['clen'] > limit and 'mem' in names:
                tags.append('clen-over')
            if hs and isinstance(hs[0], dict) and hs[0]['chunk_size'] < len(body) / 3000:
                for h in hs:
                    h['chunk_size'] = max(4096, h['chunk_size'])
            data = head + body
            cuts = gen.cuts(rng, len(data), rng.sample(gen.hot_spots(head, m), 2))
            yield Case(req(data, [['parse'], ['snap', ['data']]], cuts, {'FILE_UPLOAD_MAX_MEMORY': limit}, hs, 'up'), {'m': m, 'names': names, 'limit': limit}, tags)

    def judge(self, c, res):
        r = steps(res)
        if is_exc(r[0]) or is_exc(r[1]):
            return [Problem('a valid upload fails: %r' % r, 'failed')]
        m, names, limit = c.x['m'], c.x['names'], c.x['limit']
        parts = m['parts']
        files = [p for p in parts if p['kind'] == 'file']
        sizes = [len(p['data']) for p in files]
        active = m['clen'] <= limit
        if names == 'mem' and not active:
            parts = []

        def place(i, p):
            if names == 'temp':
                return 'disk'
            if names == 'conv':
                return 'disk' if sum(sizes[:i + 1]) > limit else 'mem'
            return 'mem' if active else 'disk'
        ps = []
        infos = check_files(ps, r[1]['FILES'], parts, place)
        p = set('on-disk' if 'path' in f else 'in-memory' for f in infos)
        self.seen(*p)
        if len(p) == 2:
            self.seen('both')
        return ps
