from .common import *
from .d03 import gen_request
from core import shorten, hashable


class CHECK(Check):
    id = 'B08'
    n = 55
    level = 'fault_enumeration'
    thorough = 15
    rule = ('one multipart request whose body ends after k bytes, for every k of small bodies, in one chunking per k; what is reported is compared with the parts that were complete by then, and '
            'the upload directory is listed after close(); distinct by bytes, deliveries and handlers')
    required = ('temp', 'conv', 'mem+temp', 'cut in the file', 'cut in the headers', 'cut in the delimiter', 'files kept', 'fields kept', 'nothing complete', 'base64 cut', 'files existed')
    level_note = 'Every byte offset of each generated body is a point where it ends; bodies, chunkings and handlers are sampled.'

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            head, body, m, hot = gen_request(rng, 'multipart')
            h = rng.choice([['conv'], ['temp'], ['mem', 'temp'], ['temp']])
            names = '+'.join(h)
            hs = h
            if rng.random() < 0.6:
                hs = [{'builtin': x, 'chunk_size': rng.choice([1, 2, 7, 16, 64, 200])} for x in h]
            st = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 0, 1, 30, 100, 10 ** 6])}
            variants = []
            offs = range(len(body) + 1) if len(body) < 600 or self.tier != 'quick' else sorted(set(range(rng.randint(0, 2), len(body) + 1, 3)) | set(
                x - len(head) + d for x in hot for d in (-1, 0, 1) if 0 <= x - len(head) + d <= len(body)) | {len(body)})
            n = len(head)
            for k in offs:
                variants.append({'upto': n + k, 'cuts': gen.cuts(rng, n + k, [x for x in hot if x <= n + k]) if rng.random() < 0.7 else None, 'kind': None})
            stps = [['parse'], ['snap', ['data']], ['ls'], ['close'], ['ls']]
            yield Case({'op': 'faults', 'base': req(head + body, stps, None, st, hs, 'up'), 'variants': variants}, {'m': m, 'head': n, 'len': len(body)}, [names])

    def judge(self, c, res):
        m = c.x['m']
        delim = len(m['boundary']) + 2
        parts = m['parts']
        ends = m['pos'][1:]
        ps = []
        for v, raw in zip(c.job['variants'], res['variants']):
            r = [dec(s) for s in raw]
            k = v['upto'] - c.x['head']
            where = 'body cut after %d of %d bytes (delimiters at %r), chunks %r: ' % (k, c.x['len'], m['pos'], v['cuts'])
            done = [p for p, e in zip(parts, ends) if k > e + delim]
            maybe = [p for p, e in zip(parts, ends) if k == e + delim]
            # the part in which the body ends
            b64 = False
            for p, (s, e), begin in zip(parts, m['spans'], m['pos']):
                if begin <= k <= e + 2 + delim:
                    b64 = b64 or p['kind'] == 'file' and p['te'] == 'base64'
                    if p['kind'] == 'file':
                        self.seen('cut in the file' if s <= k < e else 'cut in the headers' if k < s else 'cut in the delimiter')
            if is_exc(r[0]):
                if is_exc(r[0], 'MultiPartParserError') and b64:
                    self.seen('base64 cut')
                    done = maybe = []
                else:
                    ps.append(Problem(where + 'fails with %r' % r[0], 'error'))
                    continue
            if is_exc(r[1]):
                ps.append(Problem(where + 'unreadable: %r' % r[1], 'unreadable'))
                continue
            s = r[1]
            # files: those of the complete parts, and at most the one whose delimiter is the end
            ok = None
            for files in ([p for p in done if p['kind'] == 'file'], [p for p in done + maybe if p['kind'] == 'file']):
                q = []
                check_files(q, s['FILES'], files)
                if not q:
                    ok = files
                    break
                ok_problem = q[0]
            if ok is None:
                ps.append(Problem(where + ok_problem.what, 'files'))
            elif ok:
                self.seen('files kept')
            if not done:
                self.seen('nothing complete')
            # fields: those of the complete parts come first under every name
            want = gen.want_post(done)
            got = dict((hashable(a), b_) for a, b_ in s['POST'])
            for name, vals in want:
                self.seen('fields kept')
                if got.get(hashable(norm(name)), [])[:len(vals)] != [norm(x) for x in vals]:
                    ps.append(Problem(where + 'field %r is %r' % (name, got.get(hashable(norm(name)))), 'fields'))
            extra = sum(len(x) for x in got.values()) - sum(len(x) for _, x in want)
            if extra > 1:
                ps.append(Problem(where + '%d fields more than were complete: %r' % (extra, s['POST']), 'fields-extra'))
            if dirs_of(r[2]).get('up'):
                self.seen('files existed')
            left = dirs_of(r[4])
            if is_exc(r[3]) or left.get('up') or left.get('tmp') or left.get('cwd'):
                ps.append(Problem(where + 'left behind after close(): %r %r' % (left, r[3]), 'left-behind'))
            if len(ps) > 3:
                break
        return ps

    def sample(self, c, res):
        return {'job': shorten(c.job), 'observed': shorten(res['variants'][len(res['variants']) // 2])}

    def nontrivial(self, c, res):
        self.seen(*['cut points'] * len(res['variants']))
        return Check.nontrivial(self, c, res)
