from .common import *
from core import shorten


class Sim:
    """the reactions of one scripted handler, and what it was given"""

    def __init__(self, ix, spec):
        self.ix, self.spec = ix, spec
        self.n, self.got = -1, []

    def script(self):
        fs = self.spec.get('files') or [{}]
        return fs[min(self.n, len(fs) - 1)]

    def react(self, what):
        return self.script().get(what)

    def out(self, raw):
        how = self.script().get('pass', 'swallow')
        return {'swallow': None, 'same': raw, 'upper': raw.upper(), 'half': raw[:len(raw) // 2], 'double': raw + raw}[how]


NAMES = {'skip': 'SkipFile', 'stop': 'StopUpload', 'reset': 'StopUploadReset', 'future': 'StopFutureHandlers', 'error': 'Error'}


def gen_scripts(rng, i, n, last):
    def one():
        s = {'pass': rng.choice(['swallow', 'same', 'same', 'upper', 'half', 'double']) if not last else rng.choice(['swallow', 'same']),
             'object': rng.random() < (0.8 if last else 0.35)}
        if rng.random() < 0.12:
            s['on_new'] = rng.choice(['skip', 'stop', 'reset', 'future', 'future', 'error'])
        if rng.random() < 0.14:
            s['on_chunk'] = rng.choice(['skip', 'stop', 'reset', 'skip', 'error'])
            s['chunk_at'] = rng.choice([0, 0, 1, 2, 5])
        if rng.random() < 0.06:
            s['on_complete'] = rng.choice(['stop', 'reset', 'error'])
        if rng.random() < 0.2:
            s['expose'] = True
        return s
    return [one() for _ in range(rng.randint(1, 3))]


class CHECK(Check):
    id = 'B04'
    n = 1800
    rule = ('one multipart request with one to three handlers that react as scripted; the log of their calls is compared with the sequence that the documented protocol gives for the chunks that '
            'the first handler got, and FILES and POST with what the handlers returned; distinct by bytes, delivery and scripts')
    technique = 'runtime monitoring: trace of handler calls checked against the protocol'
    required = ('taken over', 'SkipFile', 'StopUpload', 'StopUploadReset', 'StopFutureHandlers', 'Error', 'several chunks', 'altered', 'passed on to a built-in handler', 'several files', 'three handlers',
                'set on the request', 'raw offered', 'upload_complete ends', 'large file data', 'large files')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            head, body, m = gen.multipart(rng, fields=(0, 3), files=(0, 4), bad=(0, 1), big=0.01, sizes=[0, 1, 10, 50, 100, 300, 1000] if rng.random() < 0.5 else None, large=0.02, longs=['files', 'repeated files', 'file data', 'name'])
            n = rng.choice([1, 1, 2, 2, 3])
            hs = []
            tags = (['three handlers'] if n == 3 else []) + (['large ' + m['large']] if m['large'] else [])
            builtin = rng.random() < 0.2
            for k in range(n):
                h = {'chunk_size': rng.choice([3, 8, 50, 64, 100, 500, 65536]), 'files': gen_scripts(rng, k, n, k == n - 1)}
                if len(body) > 5000:
                    h['chunk_size'] = max(h['chunk_size'], 500, len(body) // 50 // 4 * 4)
                if rng.random() < 0.07:
                    h['raw'] = 'take'
                if rng.random() < 0.3:
                    h['uc'] = True
                    tags.append('upload_complete ends' if k < n - 1 else 'upload_complete')
                hs.append(h)
            if builtin:
                hs.append(rng.choice(['temp', 'conv']))
                tags.append('passed on to a built-in handler')
                for h in hs[:-1]:
                    h.pop('raw', None)
                    for s in h['files']:
                        if s.get('on_new') in ('future',):
                            del s['on_new']
                        if s['pass'] == 'swallow':
                            s['pass'] = 'same'
                        if s.get('on_chunk') == 'error':
                            del s['on_chunk']
            data = head + body
            cuts = gen.cuts(rng, len(data), rng.sample(gen.hot_spots(head, m), 1))
            stps = [['parse'], ['src'], ['snap', ['data']]]
            if rng.random() < 0.15:
                # handlers given to the request instead of the settings
                j = req(data, [['header'], ['set_handlers', hs], ['parse_body'], ['src'], ['snap', ['data']]], cuts, {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 10, 10 ** 6])}, None, 'up')
                tags.append('set on the request')
            else:
                j = req(data, stps, cuts, {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 10, 10 ** 6])}, hs, 'up')
            if sum(p['kind'] == 'file' for p in m['parts']) > 1:
                tags.append('several files')
            yield Case(j, {'m': m, 'hs': hs, 'body': body}, tags)

    def judge(self, c, res):
        r = steps(res)
        log = [[dec(x) for x in e] for e in res['log']]
        m, hs = c.x['m'], c.x['hs']
        result, src, snap = [x for st, x in zip(c.job['steps'], r) if st[0] not in ('header', 'set_handlers')]
        sims = [Sim(k, h) for k, h in enumerate(hs) if isinstance(h, dict)]
        builtin = len(sims) < len(hs)
        want = []
        at = 0
        ps = []

        def bad(what, key):
            return [Problem('%s; calls: %r, scripts %r' % (what, shorten(log), hs), key)]
        # --- raw input
        for s in sims:
            want.append([s.ix, 'raw', m['clen'], m['boundary'], None])
            self.seen('raw offered')
            if s.spec.get('raw') == 'take':
                want.append([s.ix, 'raw_data', norm(c.x['body'])])
                taken = True
                break
        else:
            taken = False
        for w in want:
            if at >= len(log):
                return bad('the raw input was not offered to handler %d' % w[0], 'raw')
            e = log[at]
            at += 1
            if e[:2] != w[:2] or (e[2:4] != w[2:4] if w[1] == 'raw' else e[2] != w[2]):
                return bad('call %d is %r instead of %r' % (at, e[:4], w[:4]), 'raw')
        if taken:
            self.seen('taken over')
            if is_exc(result) or is_exc(snap):
                return bad('the upload that a handler took over fails: %r %r' % (result, snap), 'taken')
            if any(e[1] != 'upload_complete' for e in log[at:]):
                return bad('calls after a handler took over', 'taken')
            if snap['POST'] != [['taken', ['over']]] or [k for k, v in snap['FILES']] != ['file']:
                return bad('the result of the handler that took over is not used: %r' % shorten(snap), 'taken')
            return []
        # --- the parts
        fields, files = [], []
        ended = None
        for p in m['parts']:
            if p['kind'] == 'field':
                fields.append(p)
                continue
            if p['kind'] != 'file':
                continue
            counters = [0] * len(hs)
            wrote = b''
            ev = None
            # new_file
            for s in sims:
                s.n += 1
                s.got = []
                w = [s.ix, 'new', norm(p['name'].strip()), norm(p['filename']), norm(p['ctype']), p['clen'], norm(p['extra'].get('charset')), norm(p['extra']), norm(p['te'])]
                if at >= len(log) or log[at] != w:
                    return bad('expected %r as call %d' % (w, at), 'new_file')
                at += 1
                ev = s.react('on_new')
                if ev:
                    self.seen(NAMES[ev])
                    if at >= len(log) or log[at] != [s.ix, 'new!', NAMES[ev]]:
                        return bad('harness: no reaction', 'new_file')
                    at += 1
                    break
            # chunks
            if ev in (None, 'future'):
                ev = None
                off = 0
                raw = p['data']
                nch = 0
                while at < len(log) and log[at][1] == 'chunk' and not ev:
                    e = log[at]
                    n = e[4]
                    piece = raw[off:off + n]
                    nch += 1
                    if e[0] != 0:
                        return bad('a chunk does not go to the first handler first', 'chunks')
                    for s in sims:
                        w = [s.ix, 'chunk', norm(piece), counters[s.ix], len(piece)]
                        if at >= len(log) or log[at] != w:
                            return bad('expected %r as call %d, file has %d bytes' % (w, at, len(raw)), 'chunks')
                        at += 1
                        if s.ix == 0:
                            off += n
                        s.got.append(piece)
                        counters[s.ix] += len(piece)
                        if s.react('on_chunk') and (s.script().get('chunk_at') is None or len(s.got) - 1 == s.script()['chunk_at']):
                            ev = s.react('on_chunk')
                        if ev:
                            self.seen(NAMES[ev])
                            if at >= len(log) or log[at] != [s.ix, 'chunk!', NAMES[ev]]:
                                return bad('harness: no reaction', 'chunks')
                            at += 1
                            break
                        piece = s.out(piece)
                        if piece is None:
                            break
                        if s.spec['files'] and s.script().get('pass') != 'same':
                            self.seen('altered')
                    else:
                        wrote += piece
                if nch > 1:
                    self.seen('several chunks')
                if not ev and off != len(raw):
                    return bad('the chunks of a file of %d bytes have %d' % (len(raw), off), 'chunks')
            if ev == 'skip':
                continue
            if ev:
                ended = ev
                break
            # complete
            for s in sims:
                w = [s.ix, 'complete', counters[s.ix]]
                if at >= len(log) or log[at] != w:
                    return bad('expected %r as call %d' % (w, at), 'complete')
                at += 1
                ev = s.react('on_complete')
                if ev:
                    self.seen(NAMES[ev])
                    at += 1
                    break
                if s.script().get('object', True):
                    files.append((p['name'].strip(), 'h%d-%d' % (s.ix, s.n), b''.join(s.got)))
                    break
            else:
                if builtin:
                    files.append((p['name'].strip(), p, wrote))
            if ev:
                ended = ev
                break
        # --- the end
        rest = log[at:]
        if ended == 'error':
            if not is_exc(result, 'OtherSourceError'):
                return bad('the error of a handler is lost: %r' % (result,), 'error')
            if is_exc(snap) or snap['POST'] or snap['FILES']:
                return bad('reported after an error: %r' % shorten(snap), 'error')
            if [e for e in rest if e[1] != 'upload_complete']:
                return bad('calls after an error', 'error')
            return []
        if is_exc(result):
            return bad('parsing fails: %r' % result, 'failed')
        if is_exc(snap):
            return bad('unreadable result: %r' % snap, 'failed')
        uc = []
        for s in sims:
            uc.append([s.ix, 'upload_complete'])
            if s.spec.get('uc'):
                break
        if rest != uc:
            return bad('expected %r at the end, not %r' % (uc, rest), 'upload_complete')
        if ended != 'reset' and (src['delivered'] != src['chunks'] or not src['after_end']):
            return bad('the input was not read to its end: %r' % src, 'not-exhausted')
        check_post(ps, snap['POST'], gen.want_post(fields))
        want = gen.group((k, (a, d)) for k, a, d in files)
        got = dict((k, v) for k, v in snap['FILES'])
        if set(got) != set(norm(k) for k, _ in want):
            ps += bad('FILES has %r instead of %r' % (sorted(got, key=repr), want), 'FILES')
        else:
            for k, l in want:
                g = got[norm(k)]
                if len(g) != len(l):
                    ps += bad('%d files under %r' % (len(g), k), 'FILES')
                    continue
                for f, (a, d) in zip(g, l):
                    if isinstance(a, str):
                        if f.get('label') != a or f.get('data') != norm(d) or f.get('closed'):
                            ps += bad('FILES has %r instead of %r' % (shorten(f), a), 'FILES')
                    else:
                        q = dict(a, data=d)
                        check_file(ps, f, q, None)
        return ps
