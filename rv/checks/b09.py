import os.path

from .common import *

ENT = [(b'&#47;', b'/'), (b'&#x2F;', b'/'), (b'&#X2f;', b'/'), (b'&#92;', b'\\'), (b'&#x5c;', b'\\'), (b'&#46;', b'.'), (b'&#x2e;&#x2e;', b'..'), (b'&amp;', b'&'), (b'&quot;', b'"'), (b'&lt;', b'<'),
       (b'&eacute;', b'\xe9'), (b'&#233;', b'\xe9'), (b'&alpha;', b'&alpha;'), (b'&#9731;', b'&#9731;'), (b'&nope;', b'&nope;'), (b'&#xZZ;', b'&#xZZ;'), (b'&#;', b'&#;'), (b'&;', b'&;'), (b'&#10;', b'\n'),
       (b'&#0;', b'\x00'), (b'&#32;', b' '), (b'&amp;#47;', b'&#47;'), (b'&#047;', b'/'), (b'& ', b'& '), (b'&#x', b'&#x'), (b'&bsol;', b'&bsol;'), (b'&#4294967296;', b'&#4294967296;'), (b'&#99999999999999999999;', b'&#99999999999999999999;'), (b'&#xfffffffffffffffff;', b'&#xfffffffffffffffff;'), (b'&#x110000;', b'&#x110000;'), (b'&#xd800;', b'&#xd800;'), (b'&sol;', b'&sol;')]
LIT = [b'/', b'\\', b'..', b'.', b'../', b'..\\', b'C:\\', b'/etc/', b'etc', b'passwd', b'a.txt', b'x', b' ', b'~', b'...', b'%2F', b'%5c', b'.ssh', b'\xc3\xa9', b'\xe2\x88\x95', b'\xff', b';', b'"', b"'",
       b':', b'a', b'.tar.gz', b'//', b'\\\\', b'*', b'$HOME', b'-']


def components(name):
    """what is left of a decoded name; b'' if nothing"""
    name = name.replace(b'\\', b'/').split(b'/')[-1].strip()
    return b'' if name in (b'', b'.', b'..') else name


class CHECK(Check):
    id = 'B09'
    warm = 0.06
    n = 1700
    rule = ('one multipart request with hostile and ordinary file names, encoded in several ways, in memory or on disk, and names assigned to the reported files; names, skipped parts and the parts around are '
            'compared with what the names were made of; distinct by bytes and settings')
    required = ('quoted', 'extended', 'entities', 'slash', 'backslash', 'dots', 'skipped', 'kept', 'long', 'long-ext', 'on-disk', 'in-memory', 'assigned', 'ordinary')

    def fname(self, rng, tags):
        """(wire, decoded)"""
        k = rng.random()
        if k < 0.15:
            n = rng.choice(gen.FNAMES)
            tags.append('ordinary')
            if b'&' in n or b'%' in n:
                n = b'a.txt'
            return n, n
        if k < 0.27:
            n = gen.word(rng, gen.LETTERS, 1, 1).encode() * rng.choice([200, 254, 255, 256, 300, 600]) + rng.choice([b'', b'.txt', b'.tar.gz', b'.' + b'e' * 100, b'.', b'.' + b'f' * 260])
            if rng.random() < 0.3:
                n = b'dir/' * 3 + n
            n = n[:700]
            if len(n) > 255:
                tags.append('long')
                if b'.' in n:
                    tags.append('long-ext')
            return n, n
        w = d = b''
        for _ in range(rng.randint(1, 7)):
            if rng.random() < 0.3:
                a, b_ = rng.choice(ENT)
                tags.append('entities')
            else:
                a = b_ = rng.choice(LIT)
            # what follows must not become part of an entity, nor the other way round
            if w.rfind(b'&') > w.rfind(b';') and (a[:1].isalnum() or a[:1] in (b'#', b';', b'x', b'\xc3', b'\xe2', b'\xff')):
                a, b_ = b' ' + a, b' ' + b_
            w += a
            d += b_
        return w, d

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            tags = []
            boundary = gen.gen_boundary(rng)
            delim = b'--' + boundary.encode()
            parts, segs = [], []
            for _ in range(rng.randint(1, 4) if rng.random() < 0.99 else gen.large(rng, 5, 60)):
                if rng.random() < 0.2:
                    p = gen.gen_part(rng, 'field', delim, {'sizes': [5]})
                    segs.append((p['head'], p['wire']))
                    parts.append(p)
                    continue
                w, d = self.fname(rng, tags)
                if not w:
                    continue
                mode = rng.choice(['quoted', 'quoted', 'extended'])
                try:
                    w.decode('utf-8')
                except UnicodeDecodeError:
                    mode = 'quoted'
                tags.append(mode)
                tags += ['slash'] if b'/' in d else []
                tags += ['backslash'] if b'\\' in d else []
                tags += ['dots'] if b'..' in d else []
                if mode == 'quoted':
                    fn = b'filename="' + w.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'
                else:
                    fn = b"filename*=UTF-8''" + b''.join(bytes([c]) if chr(c) in gen.LETTERS + '0123456789._-' and rng.random() < 0.9 else b'%%%02X' % c for c in w)
                data = gen.gen_data(rng, delim, [0, 3, 20]) if rng.random() < 0.9 else gen.smuggled(rng)
                n = gen.word(rng, 'ab', 1, 2).encode()
                pars = [b'name="' + n + b'"', fn]
                rng.shuffle(pars)
                segs.append((b'Content-Disposition: form-data; ' + b'; '.join(pars), data))
                final = components(d)
                # (a name of spaces and entities only may become empty after the entities)
                kind = 'file' if final else 'bad'
                tags.append('kept' if final else 'skipped')
                parts.append({'kind': kind, 'name': n, 'filename': final, 'data': data, 'ctype': '', 'extra': {}, 'te': None})
            if any(len(h) > 1000 for h, _ in segs) or any(delim in h for h, _ in segs):
                continue
            body = b''.join(delim + b'\r\n' + h + b'\r\n\r\n' + x + b'\r\n' for h, x in segs) + delim + b'--\r\n'
            if body.count(delim) != len(segs) + 1:
                continue
            head = gen.multipart_head(rng, boundary, len(body))
            assign = None
            stps = [['parse'], ['snap', ['data']], ['ls']]
            fs = [p for p in parts if p['kind'] == 'file']
            if fs and rng.random() < 0.35:
                p = fs[0]
                w = rng.choice([lambda: self.fname(rng, [])[1], lambda: b'/'.join(rng.choice(LIT) for _ in range(3)), lambda: b'x' * rng.randint(250, 260) + b'.abc', lambda: b'../../etc/passwd', lambda: b'/',
                                lambda: b'd/' * rng.choice([0, 2, 2000]) + gen.text_of(rng, 'abcdefgh', gen.large(rng, 260, 20000)).encode() + b'.ext'])()
                try:
                    w.decode('ascii')
                except UnicodeDecodeError:
                    w = b'a/b.txt'
                assign = w
                stps.append(['fileops', {'b': p['name'].decode()}, 0, [['setname', b(w)], ['name']]])
                tags.append('assigned')
            data = head + body
            cs = rng.choice([65536, 65536, 100, 50])
            yield Case(req(data, stps, gen.cuts(rng, len(data), [len(head)]), {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 10, 10 ** 6])}, [{'builtin': h, 'chunk_size': cs} for h in rng.choice([['conv'], ['temp'], ['mem', 'temp']])], 'up'),
                       {'parts': parts, 'assign': assign}, tags)

    def judge(self, c, res):
        r = steps(res)
        x = c.x
        if is_exc(r[0]) or is_exc(r[1]):
            return [Problem('fails: %r' % r, 'failed')]
        ps = []
        check_post(ps, r[1]['POST'], gen.want_post(x['parts']))
        names = []
        for _, l in r[1]['FILES']:
            for f in l:
                n = f.get('name')
                raw = n if isinstance(n, bytes) else n.encode('utf-8') if isinstance(n, str) else None
                if raw is None or b'/' in raw or b'\\' in raw or raw in (b'', b'.', b'..') or len(raw) > 255:
                    ps.append(Problem('a file is reported under the name %r' % (n,), 'name'))
                self.seen('on-disk' if 'path' in f else 'in-memory')
        for p in x['parts']:
            if p['kind'] == 'file' and len(p['filename']) > 255:
                p['full'] = p['filename']
                root, ext = os.path.splitext(p['filename'])
                ext = ext[:255]
                p['filename'] = root[:255 - len(ext)] + ext
        check_files(ps, r[1]['FILES'], x['parts'])
        if x['assign'] is not None and not ps:
            got, again = r[3] if not is_exc(r[3]) else (r[3], r[3])
            want = x['assign'].split(b'/')[-1]
            if is_exc(got) or not isinstance(got, str) or '/' in got or len(got) > 255 or len(want) <= 255 and got != norm(want) or (got[:100] != want[:100].decode('latin-1') and len(os.path.splitext(want)[1]) < 100) or again != got:
                ps.append(Problem('assigned %r, the name is %r' % (x['assign'], got), 'assigned'))
        return ps
