from .common import *


class CHECK(Check):
    id = 'B13'
    n = 1500
    rule = ('one multipart body assembled from random parts, given to a MultiPartParser of its own as a look-back stream, byte buffer, file or reader of short pieces, with the header fields in several containers and letter cases; '
            'fields and files are compared with the parts, and unusable header fields with the documented outcome; distinct by bytes, delivery and configuration')
    required = ('lazy', 'bytesio', 'short', 'file', 'dict', 'mvd', 'imvd', 'field', 'part file', 'no handlers', 'empty', 'not multipart', 'no boundary', 'negative', 'other multipart', 'encoding', 'number', 'big', 'large')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            head, body, m = gen.multipart(rng, fields=(0, 4), files=(0, 3), bad=(0, 1), large=0.02)
            if m['large']:
                tags0 = ['large']
            else:
                tags0 = []
            boundary = m['boundary']
            inp = rng.choice(['lazy', 'lazy', 'bytesio', 'short', 'file'])
            box = rng.choice(['dict', 'dict', 'mvd', 'imvd'])
            tags = tags0 + [inp, box] + ['field' for p in m['parts'] if p['kind'] == 'field'][:1] + ['part file' for p in m['parts'] if p['kind'] == 'file'][:1]
            if len(body) > 65536:
                tags.append('big')
            ct = rng.choice([b'multipart/form-data', b'multipart/form-data', b'Multipart/Form-Data', b'multipart/mixed', b'multipart/x'])
            if b'form-data' not in ct.lower():
                tags.append('other multipart')
            ct += b'; ' + gen.param(rng, 'boundary', boundary)
            cl = rng.choice([len(body), b'%d' % len(body), b' %d ' % len(body), 1, 10 ** 9]) if body else 1
            if isinstance(cl, int):
                tags.append('number')
            x = {'want': 'parts'}
            k = rng.random()
            meta = []
            if k < 0.06:
                x['want'] = 'error'
                ct = rng.choice([b'text/plain; ', b'', b'form-data; ', b'application/x-www-form-urlencoded; ', b' multipart/form-data; ', b'multipart; ']) + ct[ct.find(b'boundary'):]
                tags.append('not multipart')
            elif k < 0.08:
                x['want'] = 'error'
                ct = None
                tags.append('not multipart')
            elif k < 0.12:
                x['want'] = 'error'
                ct = rng.choice([b'multipart/form-data', b'multipart/form-data; boundary=', b'multipart/form-data; boundary="a\x01"', b'multipart/form-data; boundary=' + b'x' * 202])
                tags.append('no boundary')
            elif k < 0.16:
                x['want'] = 'error'
                cl = rng.choice([-1, b'-1', b'-%d' % len(body), b' -5'])
                tags.append('negative')
            elif k < 0.22:
                x['want'] = 'empty'
                cl = rng.choice([0, b'0', None, b'', b'many', b'1.5', b'0x10', b'1,000'])
                tags.append('empty')
            if ct is not None:
                meta.append([b(gen.case_mix(rng, 'Content-Type')), b(ct)])
            if cl is not None:
                meta.append([b(gen.case_mix(rng, 'Content-Length')), cl if isinstance(cl, int) else b(cl)])
            if rng.random() < 0.5:
                meta.append([b('X-Content-Type'), b('text/plain')])
                meta.append([b('Content-Type-X'), b('multipart/form-data; boundary=zz')])
            rng.shuffle(meta)
            hs, names = gen_handlers(rng)
            st = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 100, 10 ** 7])}
            hs = hs or ['conv']
            if rng.random() < 0.2 and inp in ('lazy', 'bytesio'):     # (a Jython file is asked for 2 GB then, and takes them)
                hs = []
                tags.append('no handlers')
            if hs and isinstance(hs[0], dict) and hs[0]['chunk_size'] < len(body) / 3000:
                for h in hs:
                    h['chunk_size'] = 4096
            x['parts'] = m['parts']
            if 'mem' in names and x['want'] == 'parts':
                # (this handler leaves bodies of a greater declared length to others)
                st['FILE_UPLOAD_MAX_MEMORY'] = 10 ** 10
            x['handlers'] = bool(hs)
            enc = rng.choice([None, None, 'utf-8', 'iso-8859-1', 'koi8-r'])
            if enc:
                tags.append('encoding')
            cuts = gen.cuts(rng, len(body), rng.sample(gen.hot_spots(b'', m), min(8, len(gen.hot_spots(b'', m)))))
            shorts = [rng.choice([1, 2, 7, 100, 5000]) for _ in range(rng.randint(1, 5))]
            if sum(shorts) / len(shorts) < len(body) / 5000:
                shorts.append(len(body) // 2)
            x['n'] = len(body)
            yield Case({'op': 'mpp', 'src': src(body, cuts), 'input': inp, 'container': box, 'meta': meta, 'handlers': hs, 'settings': st, 'encoding': enc, 'request': rng.random() < 0.5, 'updir': 'up', 'shorts': shorts}, x, tags)

    def judge(self, c, res):
        x = c.x
        r = dec(res['steps'][0])
        how = repr([c.job[k] for k in ('meta', 'container', 'input', 'handlers')])
        if x['want'] == 'error':
            if not is_exc(r, 'MultiPartParserError') or res.get('where') != 'init':
                return [Problem('not refused as unusable: %r (%s)' % (r, how), 'error')]
            return []
        if is_exc(r) or 'POST' not in r:
            return [Problem('a valid body gives %r (%s)' % (r, how), 'refused')]
        ps = []
        if not res['same']:
            ps.append(Problem('the settings have changed', 'settings'))
        if r['meta'] != sorted([dec(k), dec(v)] for k, v in ((dec_(k), dec_(v)) for k, v in c.job['meta'])):
            ps.append(Problem('the header fields have changed: %r' % (r['meta'],), 'meta'))
        parts = x['parts'] if x['want'] == 'parts' else []
        if r['cls'] != ['QueryDict', 'MultiValueDict']:
            ps.append(Problem('the result consists of %r' % (r['cls'],), 'cls'))
        if not is_exc(r['mutate'], 'AttributeError'):
            ps.append(Problem('the fields can be changed: %r' % (r['mutate'],), 'mutable'))
        if x['want'] == 'empty':
            if r['POST'] or r['FILES'] or res['left'] != x['n']:
                ps.append(Problem('without a length: %s, %s, %d bytes of %d left' % (repr(r['POST'])[:300], repr(r['FILES'])[:300], res['left'], x['n']), 'empty'))
            return ps
        check_post(ps, r['POST'], gen.want_post(parts))
        if x['handlers']:
            check_files(ps, r['FILES'], parts)
        elif r['FILES']:
            ps.append(Problem('without a handler there are files: %r' % (r['FILES'],), 'files'))
        if res['left']:
            ps.append(Problem('%d bytes of the body are left' % res['left'], 'left'))
        for p in ps:
            p.what += ' (%s)' % how
        return ps


def dec_(v):
    """what an agent would send for this value of a job"""
    if isinstance(v, dict) and 'b' in v:
        d = v['b'].encode('latin-1')
        return d.decode() if all(c < 128 for c in d) else v
    return v
