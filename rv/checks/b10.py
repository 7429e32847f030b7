import re

from .common import *
from core import shorten

STEM = 'Zq7'
EXTS = ['.txt', '', '.tar.gz', '.a b', '.\xe9', '.<>', '.' + 'e' * 80, '.x&#0;y', '.x&#47;y', '.%2e%2e', '.;', '."', '.X', '.1', '.', '.-_', '.a\\b', ':z', '.\t', '.php', '.{}', '.*', '.$(x)', '.&#10;x']


class CHECK(Check):
    id = 'B10'
    n = 1500
    rule = ('one upload (complete, or failing in one of the documented ways, or stopped or skipped by a handler) with hostile file names; the upload, working and temporary directories are listed '
            'after parsing and after closing; distinct by bytes, settings and plan')
    required = ('success', 'too-big', 'too-many', 'bad-base64', 'stop', 'skip', 'reset', 'error', 'closed-twice', 'moved-away', 'in-memory-only', 'on-disk', 'mixed', 'planted', 'missing-directory', 'reparsed',
                'cut', 'watched', 'new stream', 'many files', 'large files')
    technique = 'runtime monitoring: directory listings as resource conservation check'

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            how = gen.pick(rng, [(6, 'success'), (1, 'too-big'), (1, 'too-many'), (1, 'bad-base64'), (1, 'stop'), (1, 'reset'), (1, 'skip'), (1, 'error'), (1, 'cut')])

            def fname(r):
                n = r.choice(['', '', '/', '../', '/etc/', 'a\\', '.']) + STEM + r.choice(EXTS)
                return n.encode('latin-1')
            boundary = gen.word(rng, 'abc', 8, 8)
            nf = gen.large(rng, 5, 150) if rng.random() < 0.01 else 0
            head, body, m = gen.multipart(rng, fields=(1, 3), files=(nf or 1, nf or 4), bad=(0, 1), fnames=fname, big=0.01, boundary=boundary, sizes=[0, 1, 10, 50, 100, 3000] if nf or rng.random() < 0.98 else [0, 100, 200000, 1000000], field_sizes=[5, 20, 30])
            files = [p for p in m['parts'] if p['kind'] == 'file']
            fields = [p for p in m['parts'] if p['kind'] == 'field']
            for p in files:
                p['final'] = None
            st = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 0, 5, 60, 200, 10 ** 6])}
            hs = rng.choice([['conv'], ['temp'], ['mem', 'temp'], ['conv']])
            cs = rng.choice([7, 50, 64, 500, 65536])
            hs = [{'builtin': h, 'chunk_size': cs} for h in hs]
            tags = [how] + ['many files'] * (nf > 20) + ['large files'] * (len(body) > 200000)
            if len(body) > 20000:
                for h in hs:
                    h['chunk_size'] = cs = max(cs, 4096)
            if how == 'too-big':
                st['DATA_UPLOAD_MAX_MEMORY'] = sum(len(p['wire']) + 2 for p in fields) - 1
            elif how == 'too-many':
                body = body[:m['pos'][-1]] + (b'--' + boundary.encode() + b'\r\nContent-Disposition: form-data; name="x"\r\n\r\ny\r\n') + body[m['pos'][-1]:]
                st['DATA_UPLOAD_MAX_FIELDS'] = len(fields)
            elif how == 'bad-base64':
                body = body[:m['pos'][-1]] + (b'--' + boundary.encode() + b'\r\nContent-Disposition: form-data; name="x"; filename="Zq7.x"\r\nContent-Transfer-Encoding: base64\r\n\r\nYWJjYWJjYWJjY\r\n') + body[m['pos'][-1]:]
            elif how == 'cut':
                body = body[:rng.randint(m['pos'][0], len(body) - 1)]
            elif how in ('stop', 'reset', 'skip', 'error'):
                script = {'pass': 'same', 'object': False}
                at = rng.randint(0, len(files) - 1)
                ev = rng.choice(['on_new', 'on_chunk', 'on_complete'] if how != 'skip' else ['on_new', 'on_chunk'])
                fs = [dict(script) for _ in range(at)] + [dict(script, **{ev: how, 'chunk_at': rng.choice([0, 0, 1])})] + [dict(script)]
                own = {'chunk_size': cs, 'files': fs}
                if rng.random() < 0.5:
                    # it has an object of its own at hand, as the built-in ones have
                    for f in fs:
                        f['expose'] = 'new'
                hs = [own] + hs if rng.random() < 0.5 else hs + [own]
                if hs[-1] is own and ev != 'on_new':
                    hs = [own] + hs[:-1]
            elif rng.random() < 0.3:
                # one that only watches, with something at hand that it closes
                hs = [{'chunk_size': cs, 'files': [{'pass': 'same', 'object': False, 'expose': 'new'}]}] + hs
                tags.append('watched')
            # the boundary is the same, so that the same object can parse the body of another upload
            stps = []
            if rng.random() < 0.15:
                stps.append(['plant', STEM + '.txt'])
                tags.append('planted')
            elif rng.random() < 0.1:
                stps.append(['rmup'])
                tags.append('missing-directory')
            stps += [['parse'], ['ls'], ['snap', ['data']]]
            if how == 'success' and rng.random() < 0.2:
                stps.append(['unlink'])
                tags.append('moved-away')
            if rng.random() < 0.15:
                # what was uploaded is still reported, and closed with the request
                stps += rng.choice([[['stream', {'data': b(b'GET / HTTP/1.1\r\nHost: a\r\n\r\n')}]] + rng.choice([[], [['header']]]), [['body_stream', {'data': b(b'later')}]]])
                tags.append('new stream')
            stps += [['close'], ['ls']]
            if rng.random() < 0.5:
                stps += [['close'], ['close']]
                tags.append('closed-twice')
            if 'new stream' not in tags and rng.random() < 0.2:
                stps += [['body_stream', {'data': b(body)}], ['parse_body'], ['ls'], ['snap', ['data']], ['close'], ['ls']]
                tags.append('reparsed')
            if tags[-1] == 'planted' or 'planted' in tags:
                stps.append(['unplant', STEM + '.txt'])
            data = head + body
            yield Case(req(data, stps, gen.cuts(rng, len(data), [len(head)]) if len(data) < 20000 else rng.choice([None, 512, 5000]), st, hs, 'up'), {'how': how, 'tags': tags}, tags)

    def judge(self, c, res):
        r = steps(res)
        ps = []
        how = c.x['how']
        planted = 0
        moved = False
        ls = {}
        last = None
        for st, v in zip(c.job['steps'], r):
            op = st[0]
            if is_exc(v) and (op in ('ls', 'snap', 'close', 'unlink', 'unplant', 'plant', 'rmup', 'stream', 'body_stream') or op in ('parse', 'parse_body') and how in ('success', 'stop', 'reset', 'skip')):
                ps.append(Problem('%s after %s: %s fails with %r' % (how, c.x['tags'], op, v), 'error-' + op))
            elif op in ('parse', 'parse_body') and how in ('too-big', 'too-many', 'bad-base64') and not is_exc(v):
                ps.append(Problem('%s: no error' % how, 'no-error'))
            elif op == 'plant':
                planted = 1
            elif op == 'unplant' and v != 'planted':
                ps.append(Problem('a file that was in the directory before has now %r' % (v,), 'planted'))
            elif op == 'unlink':
                moved = True
            elif op == 'ls':
                ls = dirs_of(v)
                if ls.get('tmp') or ls.get('cwd'):
                    ps.append(Problem('%s: files outside of the upload directory: %r' % (how, ls), 'outside'))
                if last == 'close':
                    if len(ls.get('up', ())) != planted:
                        ps.append(Problem('%s, closed: left behind %r' % (how, ls), 'left-behind'))
            elif op == 'snap':
                infos = [f for _, l in v['FILES'] for f in l if 'label' not in f]
                up = [x[0] for x in ls['up']]
                disk = [f for f in infos if 'path' in f]
                if 'path' in str(infos):
                    self.seen('mixed' if len(disk) < len(infos) else 'on-disk')
                elif infos:
                    self.seen('in-memory-only')
                extra = len(up) - planted - len(disk)
                if extra:
                    # (only files that are being written when an upload fails or is stopped may be there until it is closed)
                    if extra < 0 or how in ('success', 'skip') or extra > 1:
                        ps.append(Problem('%s: %d files on disk are reported, the directory has %r' % (how, len(disk), up), 'count'))
                for f in infos:
                    if f.get('closed') is not False or is_exc(f.get('data')) or 'path' in f and not f['exists']:
                        ps.append(Problem('%s: a reported file is not readable: %r' % (how, shorten(f)), 'unreadable'))
                for n in up:
                    if planted and n == STEM + '.txt':
                        continue
                    if not re.match(r'^[A-Za-z0-9_.-]{5,80}$', n) or STEM in n:
                        ps.append(Problem('a temporary file is named %r' % n, 'name'))
            last = op
        return ps
