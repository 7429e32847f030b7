import urllib.parse

from .common import *

ENCODINGS = ['utf-8', 'UTF-8', 'iso-8859-1', 'latin-1', 'koi8-r', 'iso-8859-5']
CHARS = 'abz09-_.\xe9\xfc\u0436\u042f\u2603 &=+%;/?'
HANDLERS = [{'chunk_size': 1000, 'files': [{'pass': 'same', 'object': True}]}]


def pairs(rng):
    return [(''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 4))), ''.join(rng.choice(CHARS) for _ in range(rng.randint(0, 6)))) for _ in range(rng.randint(1, 5))]


def encode(ps):
    return '&'.join(urllib.parse.quote_plus(n) + '=' + urllib.parse.quote_plus(v) for n, v in ps).encode()


def in_encoding(ps, e):
    return gen.group([(n.encode().decode(e), v.encode().decode(e)) for n, v in ps])


class CHECK(Check):
    id = 'S04'
    n = 1500
    rule = ('one request object to which encoding, scheme, path, attributes, handlers and body streams are assigned in random order before, between and after parsing head and body; everything that it reports after every step is '
            'compared with a model in which an assignment changes only what it names; distinct by request and plan')
    required = ('encoding', 'encoding before the head', 'encoding before the body', 'encoding after the body', 'declared', 'no query', 'query', 'form', 'multipart', 'text', 'set_scheme', 'set_scheme empty', 'set_path', 'set_path raw',
                'method', 'host', 'port', 'content type', 'handlers', 'handlers too late', 'body stream', 'multipart body stream', 'files replaced', 'no stream', 'new stream', 'no new stream')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            tags = []
            head, m = gen.gen_head(rng, hosts=1, nhost=1, form=rng.choice(['origin', 'absolute', 'absolute']), query='QQ' + gen.word(rng, gen.LETTERS, 8, 8) if rng.random() < 0.7 else None, ctype=None, fields=2, ajax=False)
            q = []
            if m['qs']:
                q = pairs(rng)
                head = head.replace(b'?' + m['qs'].encode(), b'?' + encode(q), 1)
            tags.append('query' if q else 'no query')
            kind = rng.choice(['form', 'form', 'multipart', 'text'])
            declared = rng.choice(ENCODINGS) if rng.random() < 0.25 and kind != 'multipart' else None
            bodies = {}

            def form():
                ps = pairs(rng)
                return encode(ps), ps

            def multi(**o):
                h, body, mm = gen.multipart(rng, fields=(1, 2), files=(0, 1), b64=0, big=0, **o)
                return body, mm
            if kind == 'form':
                body, want = form()
                ct = 'application/x-www-form-urlencoded'
            elif kind == 'text':
                body, want = b'a=b&c=%C3%A9', [('a', 'b'), ('c', '\xe9')]
                ct = 'text/plain'
            else:
                body, want = multi()
                ct = 'multipart/form-data; boundary="%s"' % want['boundary']
                if not all(' ' <= x < '\x7f' and x not in '"\\' for x in want['boundary']):
                    continue
            tags.append(kind)
            if declared:
                ct += '; charset=' + declared
                tags.append('declared')
            line = b'Content-Type: ' + ct.encode('latin-1') + b'\r\nContent-Length: %d\r\n' % len(body)
            head = head[:-2] + line + b'\r\n'
            start = rng.choice(ENCODINGS)
            # the plan, and the model of what is reported after every step
            stps, plan = [], []
            stages = ['pre', 'header', 'mid', 'parse_body', 'post'] + ['new stream'] * (rng.random() < 0.3)
            data = head + body
            for s in stages:
                if s in ('header', 'parse_body'):
                    stps += [[s]]
                    plan += [(s, None)]
                    continue
                if s == 'new stream':
                    stps += [['stream', src(data, gen.cuts(rng, len(data)))]]
                    plan += [('new stream', None)]
                    tags.append('new stream')
                    if rng.random() < 0.5:
                        stps += [['set_handlers', HANDLERS]]
                        plan += [('handlers', False)]
                    stps += [['header']]
                    plan += [('header', None)]
                    continue
                for _ in range(rng.choice([0, 1]) if s == 'pre' else rng.choice([0, 1, 1, 2, 3])):
                    k = rng.choice(['encoding'] * 4 + ['set_scheme', 'set_path', 'method', 'host', 'port', 'ctype', 'handlers', 'body_stream'])
                    if s == 'pre' and k not in ('encoding', 'set_scheme', 'handlers'):
                        k = 'encoding'
                    if k == 'encoding':
                        v = rng.choice(ENCODINGS)
                        stps.append(['set', 'encoding', b(v)])
                        tags += [k, {'pre': 'encoding before the head', 'mid': 'encoding before the body', 'post': 'encoding after the body'}[s]]
                    elif k == 'set_scheme':
                        v = rng.choice(['', None, 'http', 'https', 'HTTPS', 'ws'])
                        stps.append(['call', 'set_scheme', [b(v) if v is not None else None]])
                        tags.append('set_scheme' if v else 'set_scheme empty')
                    elif k == 'set_path':
                        v = '/' + gen.word(rng, gen.LETTERS + '/', 0, 6)
                        raw = rng.random() < 0.4
                        stps.append(['call', 'set_path', [b(v)], {'encode_safely': not raw}])
                        tags.append('set_path raw' if raw else 'set_path')
                    elif k in ('method', 'host', 'port'):
                        v = {'method': lambda: rng.choice(['GET', 'POST', 'X']), 'host': lambda: rng.choice(['new.com', '[::2]']), 'port': lambda: str(rng.randint(0, 65535))}[k]()
                        stps.append(['set', k, b(v)])
                        tags.append(k)
                    elif k == 'ctype':
                        v = rng.choice(['text/plain', 'application/x-www-form-urlencoded', 'a/b'])
                        if kind == 'multipart':
                            continue
                        stps.append(['set', 'content_type', b(v)])
                        tags.append('content type')
                    elif k == 'handlers':
                        stps.append(['set_handlers', HANDLERS])
                        v = s == 'post'
                        tags.append('handlers too late' if v else 'handlers')
                    elif k == 'body_stream':
                        if kind == 'text':
                            continue
                        if rng.random() < 0.3:
                            v = None
                            stps.append(['body_stream', None])
                            tags.append('no stream')
                        else:
                            nb, v = form() if kind == 'form' else multi(boundary=want['boundary'])
                            if kind == 'multipart':
                                tags.append('multipart body stream')
                            stps.append(['body_stream', src(nb, gen.cuts(rng, len(nb)))])
                            tags.append('body stream')
                        if s == 'post':
                            plan.append(('body_stream', v))
                            stps.append(['parse_body'])
                            plan.append(('parse_body', None))
                            continue
                    plan.append((k, v if k != 'set_path' else (v, raw)))
            out = []
            for st in stps:
                out += [st, ['snap', ['meta', 'get', 'data']]]
            out += [['settings']]
            if rng.random() < 0.1:
                # nothing to parse, which is no request
                out += [['stream', None], [rng.choice(['header', 'parse'])], ['stream', src(data)], ['header'], ['snap', ['meta']]]
                tags.append('no new stream')
            st = {'DEFAULT_CHARSET': start}
            if rng.random() < 0.1:
                st, start = {}, 'ISO-8859-1'
            yield Case(req(data, out, gen.cuts(rng, len(data)), st, ['mem'] if kind == 'multipart' else None),
                       {'plan': plan, 'start': start, 'declared': declared, 'q': q, 'kind': kind, 'want': want, 'ct': ct.split(';')[0]}, tags)

    def judge(self, c, res):
        x = c.x
        r = steps(res)
        ps = []
        enc = x['start']
        applied = None          # the encoding before the declared one
        prev = None
        body = x['want']        # pairs of a form (or None: empty), model of a multipart body
        have = False            # a head was parsed
        ctype = None
        done = False            # body parsed
        custom = False
        for i, (k, v) in enumerate(x['plan']):
            got, snap = r[2 * i], r[2 * i + 1]
            if not isinstance(snap, dict):
                return [Problem('after %s: %r' % (k, snap), 'snap')]
            if is_exc(got):
                if k == 'handlers' and v and got.isa('AttributeError') and done:
                    pass
                else:
                    return ps + [Problem('%s fails with %r' % (k, got), k)]
            want = dict(prev) if prev else None
            if k == 'encoding':
                enc = v
                applied = None
                if want:
                    want['encoding'] = norm(v)
                    if have:
                        want['GET'] = norm(in_encoding(x['q'], enc))
            elif k == 'header':
                if x['declared']:
                    applied = enc
                    enc = x['declared']
                have = True
                ctype = x['ct']
                differs(ps, 'content type after the head', snap['content_type'], ctype)
                differs(ps, 'encoding after the head', snap['encoding'], enc)
                if not lists_equal(snap['GET'], in_encoding(x['q'], enc)):
                    ps.append(Problem('GET after the head, in %s: %r, made from %r' % (enc, snap['GET'], x['q']), 'GET'))
                want = None
            elif k == 'new stream':
                if applied:
                    enc = applied
                    applied = None
                have = done = False
                body = x['want']
                want = None
                for a in ('POST', 'FILES'):
                    if prev and snap[a] != prev[a]:
                        ps.append(Problem('%s after a new stream is set: %r, before %r' % (a, snap[a], prev[a]), 'kept'))
                for a in ('method', 'scheme', 'host', 'path', 'content_type', 'qs'):
                    if snap[a] is not None:
                        ps.append(Problem('%s after a new stream is set: %r' % (a, snap[a]), 'new'))
                differs(ps, 'encoding after a new stream is set', snap['encoding'], enc)
            elif k == 'set_scheme':
                if v and want:
                    want['scheme'] = want['get_scheme'] = norm(v)
                    want['is_secure'] = v == 'https'
            elif k == 'set_path':
                want['path'] = want['get_path'] = norm(v[0])
                want['get_full_path'] = norm(v[0].encode() + (b'?' + encode(x['q']) if x['q'] else b''))
            elif k in ('method', 'host', 'port'):
                want[k] = want['get_' + k] = norm(v)
            elif k == 'ctype':
                want['content_type'] = norm(v)
                want['is_plain_text'] = v == 'text/plain'
                ctype = v
            elif k == 'handlers':
                if v and done and not is_exc(got):
                    return ps + [Problem('upload handlers can be set after the upload was processed', 'late')]
                custom = custom or not (v and done)
            elif k == 'body_stream':
                body = v
                done = False
                if want['FILES']:
                    self.seen('files replaced')
                want['POST'], want['FILES'] = [], []
            elif k == 'parse_body':
                if not done:
                    want = dict(want)
                    done = body is not None and len(body) > 0
                    if body is None and x['kind'] == 'multipart':
                        want['POST'], want['FILES'] = [], []
                    elif x['kind'] == 'multipart':
                        want['POST'] = norm(gen.want_post(body['parts']))
                        nf = sum(p['kind'] == 'file' for p in body['parts'])
                        if custom:
                            if sum(len(l) for _, l in snap['FILES']) != nf or any('label' not in f for _, l in snap['FILES'] for f in l):
                                ps.append(Problem('%d files, handlers of the request: FILES is %r' % (nf, snap['FILES']), 'custom'))
                            if nf and not res['log']:
                                ps.append(Problem('the handlers of the request are not called', 'custom'))
                        else:
                            check_files(ps, snap['FILES'], body['parts'])
                        want['FILES'] = snap['FILES']
                        ps += [] if lists_equal(snap['POST'], gen.want_post(body['parts'])) else [Problem('POST: %r' % (snap['POST'],), 'POST')]
                        want['POST'] = snap['POST']
                    else:
                        form = body if ctype == 'application/x-www-form-urlencoded' and body else []
                        if not lists_equal(snap['POST'], in_encoding(form, enc)):
                            ps.append(Problem('POST of a form in %s: %r, made from %r' % (enc, snap['POST'], form), 'POST'))
                        want['POST'] = snap['POST']
                        want['FILES'] = []
            if want:
                netloc = want['host']
                if isinstance(want['port'], (bytes, str)) and want['port'] == want['get_port']:
                    netloc = b'%s:%s' % (self.bytes(want['host']), self.bytes(want['port']))
                # (of a long one only a digest is known)
                if have and isinstance(want['get_full_path'], (bytes, str)):
                    want['get_uri'] = norm(self.bytes(want['scheme']) + b'://' + self.bytes(netloc) + self.bytes(want['get_full_path']))
                for a in want:
                    if a == 'get_uri' and not isinstance(want['get_full_path'], (bytes, str)) and k in ('set_path', 'set_scheme', 'host', 'port'):
                        continue
                    if a in ('GET', 'POST', 'headers'):
                        if not lists_equal(snap[a], want[a]) and snap[a] != want[a]:
                            ps.append(Problem('%s after %s %r: %r, expected %r' % (a, k, v, snap[a], want[a]), '%s-%s' % (k, a)))
                    elif a == 'POST_cls':
                        continue
                    elif snap[a] != want[a]:
                        ps.append(Problem('%s after %s %r: %r, expected %r' % (a, k, v, snap[a], want[a]), '%s-%s' % (k, a)))
            prev = snap
        s = r[2 * len(x['plan'])]
        rest = r[2 * len(x['plan']) + 1:]
        if rest:
            if is_exc(rest[0]) or not is_exc(rest[1]) or not rest[1].isa('InvalidHttpRequest'):
                ps.append(Problem('with no stream at all, setting it and parsing give %r' % (rest[:2],), 'nothing'))
            if is_exc(rest[2]) or is_exc(rest[3]) or is_exc(rest[4]) or rest[4]['content_type'] != x['ct']:
                ps.append(Problem('after no stream at all, a new one gives %r' % (rest[2:],), 'nothing'))
        if isinstance(s, dict) and s.get('DEFAULT_CHARSET') != norm(x['start']):
            ps.append(Problem('the settings given have the charset %r now instead of %r' % (s.get('DEFAULT_CHARSET'), x['start']), 'settings'))
        return ps

    @staticmethod
    def bytes(v):
        return v if isinstance(v, bytes) else str(v).encode('latin-1')
