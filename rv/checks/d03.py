from .common import *
from . import b01
from core import shorten

IO = {'io': 'SourceError', 'socket': 'timeout', 'os': 'OSError', 'other': 'OtherSourceError'}


def gen_request(rng, kind, small=True):
    """(head, body, model or None, hot)"""
    if kind == 'multipart':
        while True:
            head, body, m = gen.multipart(rng, fields=(0, 2), files=(1, 3), bad=(0, 1), big=0.0, sizes=[0, 1, 5, 20, 40, 60, 100], field_sizes=[0, 3, 20], preamble=b'')
            if not small or len(head) + len(body) < 1200:
                return head, body, m, gen.hot_spots(head, m)
    if kind == 'form':
        body, _ = b01.pairs(rng, 'utf-8', False, False)
        ct = b'application/x-www-form-urlencoded'
    else:
        body = gen.word(rng, gen.LETTERS + '\n\r', 0, 60).encode()
        ct = b'text/plain'
    head = b'POST /a?b=c HTTP/1.1\r\nHost: a.com\r\nContent-Type: ' + ct + b'\r\nX-A: b\r\n\r\n'
    return head, body, None, [len(head), len(head) - 2]


def gen_big(rng, kind):
    """a request of several times the 64 KB that are read at once: (head, body)"""
    n = rng.choice([65536, 65537, 70000, 131072, 140000, 200000])
    text = bytes(rng.choice(b'abcdefgh') for _ in range(1009)) * (n // 1009 + 1)
    if kind == 'multipart':
        file = rng.random() < 0.7
        body = (b'--bnd\r\nContent-Disposition: form-data; name="a"\r\n\r\n1\r\n--bnd\r\nContent-Disposition: form-data; name="b"' + (b'; filename="c.d"' if file else b'')
                + b'\r\n\r\n' + text[:n] + b'\r\n--bnd--\r\n')
        ct = b'multipart/form-data; boundary=bnd'
    elif kind == 'form':
        body, ct = b'a=' + text[:n] + b'&b=c', b'application/x-www-form-urlencoded'
    else:
        body, ct = text[:n - 3] + b'\nab', b'text/plain'
    return b'POST /a?b=c HTTP/1.1\r\nHost: a.com\r\nContent-Type: ' + ct + b'\r\nContent-Length: ' + str(len(body)).encode() + b'\r\n\r\n', body


class CHECK(Check):
    id = 'D03'
    n = 75
    level = 'fault_enumeration'
    thorough = 15
    rule = ('one request whose source fails instead of delivering its byte k, for every k of small requests, in one chunking and call plan per k; the failing call, what is reported '
            'afterwards and the files left after close() are judged; distinct by bytes, plan and deliveries')
    required = ('multipart', 'form', 'plain', 'failed:parse', 'failed:header', 'failed:parse_body', 'failed:body', 'failed:read', 'failed:readline', 'kind:io', 'kind:os', 'kind:socket',
                'kind:other', 'files-existed', 'at-the-end', 'big')
    level_note = ('Every byte offset of each generated request is a failure point; kinds of error, chunkings and call plans are sampled. Assumes that the error is raised by the iterator that the '
            'request was given, and again on further pulls.')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            kind = rng.choice(['multipart', 'multipart', 'multipart', 'form', 'plain'])
            big = rng.random() < 0.09
            if big:
                head, body = gen_big(rng, kind)
                hot = [len(head)] + [len(head) + k * 65536 + d for k in range(len(body) // 65536 + 1) for d in (-1, 0, 1)]
            else:
                head, body, m, hot = gen_request(rng, kind)
            data = head + body
            st, hs = {}, None
            if kind == 'multipart':
                hs = rng.choice([['conv'], ['temp'], ['mem', 'temp'], ['conv']])
                st['FILE_UPLOAD_MAX_MEMORY'] = rng.choice([0, 0, 1, 30, 100, 10 ** 6])
                if rng.random() < 0.4 and not big:
                    hs = [{'builtin': h, 'chunk_size': rng.choice([1, 7, 64, 200])} for h in hs]
            else:
                st['MAX_HEADER_SIZE'] = rng.choice([1, 4, 50, len(head), 4096])
            if rng.random() < 0.5:
                st['MAX_HEADER_SIZE'] = rng.choice([1, 3, 16, len(head)])
            if big:
                st['MAX_HEADER_SIZE'] = rng.choice([50, 65536, len(head)])
            plan = gen.pick(rng, [(4, [['parse']]), (2, [['header'], ['parse_body']]), (1, [['header'], ['body'], ['parse_body']]),
                                  (1 if kind != 'multipart' else 0.3, [['header'], ['read', rng.choice([1, 10, 1000])], ['read'], ['read', 5]]),
                                  (1 if kind != 'multipart' else 0.3, [['header']] + [['readline']] * 6 + [['read', 70000]]),
                                  (0.5, [['header'], ['iter', 10000]])])
            stps = plan + [['src'], ['snap', ['meta', 'data']], ['ls']]
            if plan[-1] in (['parse'], ['parse_body']):
                stps += [['parse_body'], ['snap', ['data']]]
            stps += [['close'], ['ls']]
            variants = []
            offs = range(len(data) + 1) if len(data) < 700 or self.tier != 'quick' else range(rng.randint(0, 2), len(data) + 1, 3)
            if big:
                offs = [rng.randint(0, len(data)) for _ in range(3)]
            offs = sorted(set(offs) | set(h + d for h in hot for d in (-1, 0, 1) if 0 <= h + d <= len(data)) | {len(data)})
            for k in offs:
                c = (rng.choice([None, 1000, 4096, 65536, [len(head)]]) if big else gen.cuts(rng, k, hot)) if rng.random() < 0.7 else None
                variants.append({'upto': k, 'cuts': c, 'kind': rng.choice(['io', 'io', 'socket', 'os', 'other'])})
            yield Case({'op': 'faults', 'base': req(data, stps, None, st, hs, 'up'), 'variants': variants}, {'kind': kind, 'plan': plan, 'len': len(data)}, [kind] + ['big'] * big)

    def judge(self, c, res):
        ps = []
        plan = c.x['plan']
        for v, raw in zip(c.job['variants'], res['variants']):
            r = [dec(s) for s in raw]
            n = len(plan)
            where = 'source failing (%s) after %d of %d bytes in chunks %r: ' % (v['kind'], v['upto'], c.x['len'], v['cuts'])
            failed = None
            for (st, x) in zip(plan, r):
                if is_exc(x):
                    failed = (st[0], x)
                    break
            raised = r[n]['raised']
            if v['upto'] == c.x['len']:
                self.seen('at-the-end')
            if failed is None:
                # (what was asked for may have been delivered before the failure)
                if raised:
                    ps.append(Problem(where + 'no call fails: %r' % shorten(r[:n]), 'swallowed'))
                elif plan[-1] in (['parse'], ['parse_body']):
                    ps.append(Problem(where + 'parsed without having read the data to the end', 'unread'))
                continue
            op, x = failed
            self.seen('failed:' + op, 'kind:' + v['kind'])
            if op in ('read', 'readline', 'body', 'iter') and v['kind'] == 'io':
                if x.name != 'UnreadablePostError' or not x.isa('IOError'):
                    ps.append(Problem(where + '%s fails with %r (%s)' % (op, x, x.mro), 'other-error'))
            elif op in ('parse', 'parse_body', 'header', 'read', 'readline', 'body', 'iter'):
                ok = x.isa(IO[v['kind']]) or x.name == 'UnreadablePostError'
                if not ok or v['kind'] == 'io' and not x.isa('IOError'):
                    ps.append(Problem(where + '%s fails with %r' % (op, x), 'other-error'))
            s = r[n + 1]
            if is_exc(s):
                ps.append(Problem(where + 'state unreadable: %r' % s, 'unreadable'))
                continue
            if s['POST'] or s['FILES']:
                ps.append(Problem(where + 'reported after the failure of %s: %r %r' % (op, s['POST'], s['FILES']), 'reported'))
            if op == 'header' or op == 'parse' and s['method'] in (None, 'None'):
                left = [(k, s[k]) for k in ('method', 'host', 'path', 'qs', 'headers', 'protocol_info', 'scheme') if s[k] not in (None, 'None', '<missing>')]
                if left or s['GET']:
                    ps.append(Problem(where + 'metadata reported: %r' % left, 'metadata'))
            if r[n]['files']:
                self.seen('files-existed')
            if plan[-1] in (['parse'], ['parse_body']) and op in ('parse', 'parse_body', 'body'):
                s = r[n + 4]
                if is_exc(s) or s['POST'] or s['FILES']:
                    ps.append(Problem(where + 'reported after another try: %r' % shorten(s), 'retry'))
            left = dirs_of(r[-1])
            if left.get('up') or left.get('tmp') or left.get('cwd') or is_exc(r[-2]):
                ps.append(Problem(where + 'left behind after close(): %r %r' % (left, r[-2]), 'left-behind'))
            if len(ps) > 3:
                break
        return ps

    def sample(self, c, res):
        return {'job': shorten(c.job), 'observed': shorten(res['variants'][len(res['variants']) // 2])}

    def nontrivial(self, c, res):
        self.seen(*['fault points'] * len(res['variants']))
        return Check.nontrivial(self, c, res)
