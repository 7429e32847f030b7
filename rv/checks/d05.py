from .common import *


class CHECK(Check):
    id = 'D05'
    n = 900
    technique = 'runtime monitoring: counting the bytes taken from the source at every event'
    rule = ('one request with long data, of which the bytes taken from the source are recorded at every chunk that a handler gets, every read and every refusal, and compared with what had to be read '
            'for it, plus the sizes of the pieces in use; distinct by bytes, pieces, settings and plan')
    required = ('upload', 'skip', 'reset at new', 'reset at chunk', 'stop', 'field too big', 'fields before', 'base64 field', 'too many fields', 'form too big', 'plain too big', 'head', 'read', 'readline', 'iter', 'bad head',
                'raw handler', 'several handlers', 'small chunks', 'large chunks', 'files before', 'events:10+')

    def cases(self):
        rng = self.rng
        kinds = ['upload'] * 4 + ['reset'] * 2 + ['field', 'many', 'form', 'plain', 'head', 'head', 'raw']
        for i in range(self.n * self.scale):
            kind = kinds[i % len(kinds)]
            mhs = rng.choice([16, 64, 500, 4096, 8192, 65536])
            w = rng.choice([64, 200, 512, 1000, 4096, 16384, 65536])
            st = {'MAX_HEADER_SIZE': mhs}
            x = {'kind': kind, 'mhs': mhs, 'w': w}
            tags = []
            tail = [rng.choice([b'x', b'line\r\n', b'a=b&', b'\r\n', b'--']), 0]
            tail[1] = rng.choice([100000, 200000, 300000]) // len(tail[0])
            hs = None
            if kind in ('upload', 'reset', 'field', 'many', 'raw'):
                c = rng.choice([64, 200, 1000, 4096, 20000, 65536])
                o = {'b64': 0, 'sizes': [0, 1, 10, 1000, 5000, 30000] + [70000, 150000, 200000] * (c >= 1000), 'names': lambda r: gen.word(r, gen.LETTERS, 1, 8).encode(),
                     'clen': lambda r, n: n + r.choice([0, 0, 1, 10 ** 6])}
                if kind in ('upload', 'reset', 'raw'):
                    o.update(files=(1, 3), fields=(0, 2), field_sizes=[0, 5, 300, 3000])
                else:
                    o.update(files=(0, 2), fields=(1, 4), field_sizes=[0, 5, 300, 3000, 70000], sizes=[0, 10, 5000], b64=1)
                head, body, m = gen.multipart(rng, bad=(0, 1), preamble=b'', **o)
                x['spans'] = [(len(head) + a, len(head) + e) for a, e in m['spans']]
                x['delim'] = len(m['boundary']) + 2
                x['c'] = c
                x['parts'] = m['parts']
                hs = [{'chunk_size': c, 'pulls': True, 'files': [{'pass': 'swallow'}]}]
                if rng.random() < 0.3:
                    hs.insert(0, {'chunk_size': c + rng.choice([0, 1, 5000]), 'pulls': True, 'files': [{'pass': 'same', 'object': False}]})
                    tags.append('several handlers')
                tags.append('small chunks' if c < 1000 else 'large chunks' if c > 10000 else 'chunks')
                files = [p for p in m['parts'] if p['kind'] == 'file']
                if kind == 'upload':
                    tags.append('upload')
                    hs[-1]['files'] = [{'pass': 'swallow', 'on_chunk': rng.choice([None, None, 'skip'])} for _ in files]
                    if any(f['on_chunk'] for f in hs[-1]['files']):
                        tags.append('skip')
                        for f in hs[-1]['files']:
                            f['chunk_at'] = rng.choice([0, 1, 2])
                    tail[1] = 0
                elif kind == 'reset':
                    k = rng.randrange(len(files))
                    what = rng.choice(['reset', 'reset', 'stop'])
                    x['where'] = rng.choice(['on_new', 'on_chunk', 'on_chunk'])
                    if what == 'stop':
                        tags.append('stop')
                    x['what'] = what
                    hs[-1]['files'] = [{'pass': 'swallow'} for _ in range(k)] + [{'pass': 'swallow', x['where']: what, 'chunk_at': rng.choice([0, 0, 1, 3])}]
                    hs[-1]['files'].append({'pass': 'swallow'})
                    x['at'] = [p for p in range(len(m['parts'])) if m['parts'][p] is files[k]][0]
                elif kind == 'field':
                    fs = [p for p in m['parts'] if p['kind'] == 'field']
                    if sum(len(p['wire']) + len(p['name']) + 2 for p in fs) == 0:
                        continue
                    k = rng.randrange(len(fs))
                    before = sum(len(p['wire']) + len(p['name']) + 2 for p in fs[:k])
                    limit = before + rng.choice([0, 1, len(fs[k]['wire']) // 2, len(fs[k]['wire']), len(fs[k]['wire']) + len(fs[k]['name']) + 1])
                    st['DATA_UPLOAD_MAX_MEMORY'] = limit
                    at = [p for p in range(len(m['parts'])) if m['parts'][p] is fs[k]][0]
                    x['need'] = x['spans'][at][0] + min(limit - before, len(fs[k]['wire']))
                    tags.append('field too big')
                    if k:
                        tags.append('fields before')
                    if fs[k]['te'] == 'base64':
                        tags.append('base64 field')
                    if any(p['kind'] == 'file' and len(p['data']) > 100 for p in m['parts'][:at]):
                        tags.append('files before')
                    x['want'] = 'RequestDataTooBig'
                elif kind == 'many':
                    fs = [p for p in m['parts'] if p['kind'] == 'field']
                    limit = rng.randint(0 if len(fs) == 1 else 1, len(fs) - 1)
                    st['DATA_UPLOAD_MAX_FIELDS'] = limit
                    st['DATA_UPLOAD_MAX_MEMORY'] = 10 ** 8
                    at = [p for p in range(len(m['parts'])) if m['parts'][p] is fs[limit]][0]
                    x['need'] = x['spans'][at][0]
                    x['want'] = 'TooManyFieldsSent'
                    tags.append('too many fields')
                elif kind == 'raw':
                    hs[-1]['raw'] = 'own'
                    x['need'] = len(head) + 1
                    tags.append('raw handler')
                stps = [['parse'], ['src']]
                x['len'] = len(head) + len(body) + len(tail[0]) * tail[1]
            else:
                ct = rng.choice([b'text/plain', b'application/json', b'']) if kind != 'form' else b'application/x-www-form-urlencoded'
                head = b'POST /a?b=c HTTP/1.1\r\nHost: a.com\r\nContent-Type: ' + ct + b'\r\nContent-Length: 1000000\r\n' + b'X-A: b\r\n' * rng.choice([0, 0, 10, 100]) + b'\r\n'
                if kind == 'head':
                    tags.append('head')
                    body = b''.join(rng.choice([b'\n', b'\r\n', b'line\n', b'x' * 300, b'y' * 3000 + b'\n', gen.word(rng, gen.LETTERS, 1, 50).encode() + b'\r\n']) for _ in range(rng.randint(5, 60))) + b'\n'
                    if rng.random() < 0.2:
                        tags.append('bad head')
                        head = rng.choice([b'GET\r\nHost: a\r\n\r\n', b'GET / HTTP/1.1\r\nA: b\r\n\r\n', b'GET /\xff HTTP/1.1\r\nHost: a\r\n\r\n', b'\r\n\r\n', b'GET / HTTP/1.1\r\nnothing\r\n\r\n'])
                        stps = [['header'], ['src']]
                        x['bad'] = True
                    else:
                        stps = [['header'], ['src']]
                        for _ in range(rng.randint(1, 8)):
                            op = rng.choice([['read', rng.choice([0, 1, 5, 100, 3000])], ['readline'], ['readline', 40], ['iter', rng.randint(1, 3)]])
                            tags.append(op[0])
                            stps += [op, ['src']]
                    tail[0] = b'x\n'
                else:
                    limit = rng.choice([0, 1, 100, 3000, 65535, 65536, 65537, 90000])
                    st['DATA_UPLOAD_MAX_MEMORY'] = limit
                    body = b''
                    tail[1] = 400000 // len(tail[0])
                    stps = [['header'], ['src'], rng.choice([['body'], ['parse_body']]), ['src']]
                    x['need'] = len(head) + limit
                    x['want'] = 'RequestDataTooBig'
                    tags.append(kind + ' too big')
                x['head'] = len(head)
                x['body'] = body
                x['c'] = 65536
                x['delim'] = 0
            if len(head) + len(body) > 100000 or tail[1]:
                w = x['w'] = max(w, 512)
            j = req(head + body, stps, w, st, hs, 'up' if hs else None)
            if tail[1]:
                j['src']['tail'] = [b(tail[0]), tail[1]]
            yield Case(j, x, tags)

    def judge(self, c, res):
        x = c.x
        r = steps(res)
        ps = []
        w = x['w']
        kind = x['kind']
        # pieces: of the source, of the handlers, of part heads; the window in which a delimiter is looked for
        ahead = w + x['c'] + 2 * (x['delim'] + 8) + 1024

        def bound(what, got, need, extra=0):
            top = max(need + ahead + extra, 0)
            if got > top:
                ps.append(Problem('%s: %d bytes were taken from the source, although byte %d is the last that it takes (pieces of %d, %d)' % (what, got, need, w, x['c']), 'ahead-' + what.split(' ')[0]))
        if kind == 'head':
            h = x['head']
            if is_exc(r[0]) != bool(x.get('bad')):
                return [Problem('the head: %r' % (r[0],), 'head')]
            floor = h + x['mhs'] + w
            if r[1]['bytes'] > floor:
                ps.append(Problem('the head of %d bytes: %d bytes were taken from the source (pieces of %d, %d)' % (h, r[1]['bytes'], w, x['mhs']), 'ahead-head'))
            pos = 0
            data = x['body'] + b'x\n' * 40000
            ops = c.job['steps'][2:]
            for i in range(0, len(ops), 2):
                op = ops[i]
                if op[0] == 'read':
                    pos += op[1]
                else:
                    for _ in range(op[1] if op[0] == 'iter' else 1):
                        n = data.find(b'\n', pos) + 1 - pos
                        pos += min(n, op[1]) if op[0] == 'readline' and len(op) > 1 else n
                if is_exc(r[2 + i]):
                    return ps + [Problem('%r fails with %r' % (op, r[2 + i]), 'op')]
                got = r[3 + i]['bytes']
                if got > max(floor, h + pos + w):
                    ps.append(Problem('%r up to byte %d of the body: %d bytes of it were taken from the source (pieces of %d)' % (op, pos, got - h, w), 'ahead-' + op[0]))
            return ps
        if kind in ('form', 'plain'):
            if not is_exc(r[2], x['want']):
                return [Problem('a body over the limit gives %r' % (r[2],), 'want')]
            # a piece of 64 KB, and the beginning of the body read with the head
            bound('the refused body', r[3]['bytes'], x['need'], x['mhs'])
            return ps
        if is_exc(r[0]) and not x.get('want'):
            return [Problem('a valid request is refused: %r' % r[0], 'refused')]
        floor = c.job['settings']['MAX_HEADER_SIZE']
        end = r[1]['bytes']
        if x.get('want'):
            if not is_exc(r[0], x['want']):
                return [Problem('not refused with %s but %r' % (x['want'], r[0]), 'want')]
            bound('refusal with ' + x['want'], end, x['need'], floor)
        if kind == 'raw':
            bound('raw handler', end, x['need'], floor)
            if any(e[1] != 'raw' for e in res['log']):
                ps.append(Problem('something else is called after a handler took over', 'raw'))
            return ps
        # where the file of each handler is
        order = [x['spans'][i] + (p['te'] == 'base64',) for i, p in enumerate(x['parts']) if p['kind'] == 'file']
        number = {}
        last = 0
        n = 0
        for e in res['log']:
            if e[1] == 'new':
                number[e[0]] = number.get(e[0], -1) + 1
            elif e[1] == 'chunk':
                n += 1
                a, z, encoded = order[number[e[0]]]
                last = e[5]
                bound('chunk of file %d' % number[e[0]], e[5], z if encoded else a + e[3] + e[4], floor)
                if e[4] > ahead:
                    ps.append(Problem('a handler gets %d bytes at once (pieces of %d)' % (e[4], x['c']), 'piece'))
        if n >= 10:
            self.seen('events:10+')
        if kind == 'reset':
            raised = [e for e in res['log'] if e[1].endswith('!')]
            if x['what'] == 'reset' and raised:
                self.seen('reset at new' if x['where'] == 'on_new' else 'reset at chunk')
                if x['where'] == 'on_chunk':
                    if end != last:
                        ps.append(Problem('after the reset of the upload %d more bytes were taken from the source' % (end - last), 'reset'))
                else:
                    bound('reset at a new file', end, x['spans'][x['at']][0], floor)
            elif x['what'] == 'stop' and end != x['len']:
                ps.append(Problem('an upload that was stopped without reset is not consumed: %d of %d bytes' % (end, x['len']), 'stop'))
        elif kind == 'upload' and end != x['len']:
            ps.append(Problem('%d of %d bytes were taken from the source' % (end, x['len']), 'all'))
        return ps
