from .common import *


class CHECK(Check):
    id = 'B02'
    warm = 0.06
    n = 1500
    handlers = True
    opts = {'fields': (0, 6), 'files': (0, 2), 'bad': (0, 2)}
    rule = ('one multipart request assembled from random parts (names, data, boundary, extra headers, decoys), delivered in random chunks with '
            'random handlers and chunk sizes; every reported field and file is compared with the part it came from; distinct by bytes, delivery and handlers')
    required = ('field', 'file', 'bad', 'base64', 'repeated-name', 'empty-data', 'lookalike', 'preamble', 'binary', 'big', 'no-parts',
                'large fields', 'large repeated fields', 'large name', 'large ctype', 'large field data')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            head, body, m = gen.multipart(rng, charset=rng.choice([None, None, 'utf-8', 'iso-8859-1']), large=0.03, **self.opts)
            hs, names = gen_handlers(rng)
            st = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 1, 10, 100, 1000, 10 ** 7])} if rng.random() < 0.7 else {}
            if m['large']:
                st.update({'DATA_UPLOAD_MAX_MEMORY': None, 'DATA_UPLOAD_MAX_FIELDS': rng.choice([None, 2000])})
            hot = gen.hot_spots(head, m)
            tags = [p['kind'] for p in m['parts']] + ['handlers:' + names]
            if m['large']:
                tags.append('large ' + m['large'])
            delim = b'--' + m['boundary'].encode()
            for p in m['parts']:
                if p['kind'] in ('field', 'file'):
                    if p['te'] == 'base64':
                        tags.append('base64')
                    tags += ['empty-data'] if not p['data'] else []
                    tags += ['lookalike'] if delim[:-1] in p['data'] else []
                    tags += ['binary'] if any(c > 127 for c in p['data']) else []
                    tags += ['big'] if len(p['data']) > 60000 else []
            ns = [p['name'].strip() for p in m['parts'] if p['kind'] == 'field']
            if len(set(ns)) < len(ns):
                tags.append('repeated-name')
            if m['pos'][0]:
                tags.append('preamble')
            if not m['parts']:
                tags.append('no-parts')
            m['names'], m['limit'] = names, st.get('FILE_UPLOAD_MAX_MEMORY', 30 << 20)
            data = head + body
            # a byte at a time only for small requests
            cuts = gen.cuts(rng, len(data), rng.sample(hot, min(len(hot), 8)))
            if hs and isinstance(hs[0], dict) and hs[0]['chunk_size'] < len(data) / 3000:
                hs[0]['chunk_size'] = hs[-1]['chunk_size'] = 4096
            yield Case(req(data, [['parse'], ['snap', ['data', 'last']]], cuts, st, hs, 'up'), m, tags)

    def judge(self, c, res):
        r = steps(res)
        if is_exc(r[0]):
            return [Problem('a valid multipart request is refused: %r' % r[0], 'refused')]
        s = r[1]
        if not isinstance(s, dict):
            return [Problem('unreadable result: %r' % (s,), 'unreadable')]
        return self.check(c, c.x, s)

    def check(self, c, m, s):
        ps = []
        check_post(ps, s['POST'], gen.want_post(m['parts']))
        for k, last, l in s['POSTlast']:
            if l[-1:] != [last]:
                ps.append(Problem('get(%r) is %r, the list is %r' % (k, last, l), 'last'))
        # files are not taken for fields, or the other way round
        if sum(len(v) for k, v in s['FILES']) > sum(p['kind'] == 'file' for p in m['parts']) or \
                set(hashable(k) for k, v in s['FILES']) - set(norm(p['name'].strip()) for p in m['parts'] if p['kind'] == 'file'):
            ps.append(Problem('fields among the files: %r' % (s['FILES'],), 'mixed'))
        return ps


from core import hashable  # noqa
