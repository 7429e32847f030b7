from .common import *


class CHECK(Check):
    id = 'C04'
    n = 2400
    thorough = 14
    rule = ('operation sequences on the look-back stream (also on one on top of another) over producers with all chunkings, against a plain buffer, counting the pulls of the producer and the bytes of tell(); chunk iterators over files that give short reads; '
            'distinct by data, chunking and operations')
    technique = 'runtime monitoring: buffer model, conservation and demand monitors'
    required = ('read', 'read n', 'readline', 'readline n', 'next', 'iter', 'unget', 'unget new', 'close', 'end reached', 'empty chunks', 'chunkiter', 'short reads', 'exhausted', 'stuck', 'peeked', 'nested', 'long', 'pushed back piece by piece')
    assumptions = ['how much next() gives out of bytes that were put back is not fixed, only that it is the next bytes and not nothing']

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            n = gen.pick(rng, [(1, 0), (4, rng.randint(1, 12)), (4, rng.randint(10, 80)), (0.6, rng.randint(1000, 70000))])
            if rng.random() < 0.02:
                n = gen.large(rng, 20000, 1 << 20)
            data = bytes(rng.choice(b'ab\ncd\r\nefgh\x00\xff') for _ in range(n)) if n < 1000 else bytes(rng.choice(b'abc\n') for _ in range(97)) * (n // 97) + b'end'
            if n > 10000 and rng.random() < 0.5:
                # long lines, of which every piece is different
                data = b''.join(b'%x%s' % (i, b'\n' * (i % (n // 40) == 0)) for i in range(n // 5))
            if rng.random() < 0.1:
                sizes = [rng.choice([1, 2, 3, 7, 10 ** 6]) for _ in range(rng.randint(1, 5))] if rng.random() < 0.5 else None
                size = rng.choice([1, 2, 3, 5, 8, 16, 100, 4096, 0]) if n < 1000 else rng.choice([512, 4096, 65536, 0])
                if n >= 1000 and sizes:
                    sizes = [100, 5000]
                tags = ['chunkiter'] + (['short reads'] if sizes else [])
                ex = rng.random() < 0.4
                if ex:
                    tags.append('exhausted')
                yield Case({'op': 'lazy', 'data': b(data), 'chunkiter': {'size': size, 'short': sizes, 'exhaust': ex}}, ('chunks', data, size), tags)
                continue
            if n < 1000 and rng.random() < 0.4:
                k = sorted(rng.randint(0, n) for _ in range(rng.randint(0, 8)))
                if rng.random() < 0.5:
                    k = sorted(k + k[:3])
            elif n < 1000:
                k = gen.cuts(rng, n, [n // 2])
            else:
                k = rng.choice([None, max(n // 2000, 10), max(n // 1000, 64), 1000, 4096, 65536, 'lines'])
            tags = set(['long'] if n > 200000 else [])
            if isinstance(k, list) and len(set([0] + k + [n])) < len(k) + 2 and n:
                tags.add('empty chunks')
            ops = []
            for _ in range(rng.randint(1, 18)):
                o = gen.pick(rng, [(3, 'read'), (3, 'readline'), (2, 'next'), (2.5, 'unget'), (0.4, 'iter'), (0.25, 'close'), (0.5, 'repeat'), (0.4, 'tell')])
                if o == 'read':
                    a = gen.pick(rng, [(5 if n < 1000 else 1, [rng.choice([0, 1, 2, 3, 5, 8, 20, 100, 10 ** 6])]), (0 if n < 1000 else 4, [rng.randint(1, n + 1)]), (0.7, []), (0.3, [None])])
                    tags.add('read n' if a and a[0] is not None else 'read')
                elif o == 'readline':
                    a = gen.pick(rng, [(2, [rng.choice([0, 1, 2, 3, 5, 8, 20, 100])]), (2, []), (0.3, [None]), (0.4, [-1])])
                    tags.add('readline n' if a and a[0] not in (None, -1) else 'readline')
                elif o == 'unget':
                    # what was just read (or the end of it), or something new; the judge knows
                    a = [rng.choice(['last', 'last', 'part', 'part', 'new', 'empty'])]
                    data2 = bytes(rng.choice(b'XYZ\n') for _ in range(rng.randint(1, 5)))
                    a = [a[0], data2]
                    tags.add('unget new' if a[0] == 'new' else 'unget')
                elif o == 'iter':
                    a = [rng.choice([1, 2, 3, 10 ** 6])]
                elif o == 'repeat':
                    times = rng.choice([2, 10, 19, 52, 60])
                    a = [rng.choice([1, 2, 5, 0, 0, 0]), times]
                else:
                    a = []
                tags.add(o)
                ops.append([o] + a)
            if 5 < n < 1000 and rng.random() < 0.06:
                # pieces of one size, each of which is pushed back for as often as it may be; nothing at all may be pushed back any number of times
                z = rng.randint(1, n // 3)
                k = list(range(z, n, z))
                tags = set(['pushed back piece by piece', 'next', 'unget'])
                ops = []
                for _ in range(rng.randint(2, 4)):
                    ops.append(['repeat', 0, rng.choice([40, 40, 39, 20, 3])])
                    ops += [['unget', 'empty', b'']] * rng.choice([0, 0, 45])
                    ops.append(['next'])
            depth = 2 if rng.random() < 0.12 else 1
            if depth > 1:
                tags.add('nested')
            tags -= set(['repeat', 'tell'])
            # ungets of what was read: executed with the data the model expects, so they are made concrete here
            jops, x = self.concrete(ops, data, k)
            yield Case({'op': 'lazy', 'data': b(data), 'cuts': k, 'depth': depth, 'ops': jops}, ('ops', data, k, x, depth), sorted(tags))

    def concrete(self, ops, data, cuts):
        """make the ungets concrete: the bytes handed out last. Where that is not known beforehand (after next), new bytes are put back."""
        rest, last, jops, out = data, None, [], []
        known = True
        for o in ops:
            op = o[0]
            if op == 'read' and known:
                n = o[1] if len(o) > 1 else None
                last = rest if n is None else rest[:n]
                rest = rest[len(last):]
            elif op == 'readline' and known:
                last = line(rest, o[1] if len(o) > 1 else None)
                rest = rest[len(last):]
            elif op in ('next', 'iter', 'close'):
                known = False
            elif op == 'unget':
                d = o[2]
                if o[1] == 'empty':
                    d = b''
                elif known and last and o[1] in ('last', 'part'):
                    d = last if o[1] == 'last' else last[len(last) // 2:]
                    last = last[:len(last) - len(d)]
                rest = d + rest
                out.append(['unget', d])
                jops.append(['unget', b(d)])
                continue
            out.append(o)
            jops.append(o)
        return jops, out

    def judge(self, c, res):
        if c.x[0] == 'chunks':
            return self.judge_chunks(c, res)
        _, data, cuts, ops, depth = c.x
        ps = []
        ends = [0]          # bytes available after so many pulls
        for ch in chunks(data, cuts):
            ends.append(ends[-1] + len(ch))
        front = b''         # put back
        pos = 0             # of the producer's data, of what is not put back
        tell = 0
        pulls = 0
        events = 0          # since the last pull: operations that may have put something back
        limit = None        # closed: nothing after this offset
        for i, (o, (r, t, p)) in enumerate(zip(ops, steps(res))):
            op = o[0]
            stop = len(data) if limit is None else limit
            rest = front + data[pos:stop]
            what = 'step %d %r on %r…' % (i, o, rest[:60])
            closed = limit is not None
            taken = op == 'repeat' and o[1] == 0
            if pulls < p < len(ends) and (op != 'repeat' or taken):
                events = 0      # (the producer gave something; nothing was put back then)
            if is_exc(r):
                if r.isa('SuspiciousMultipartForm'):
                    if op == 'repeat':
                        if events + (1 if taken else 2) * r_done(res, i) <= 40:
                            ps.append(Problem('%s: taken for stuck after %d' % (what, r_done(res, i)), 'stuck early'))
                        else:
                            self.seen('stuck')
                        return ps
                    if events + 1 <= 40:
                        ps.append(Problem('%s: taken for stuck: %r' % (what, r), 'stuck early'))
                    return ps
                return ps + [Problem('%s: %r' % (what, r), 'exception')]
            took = b''
            if op in ('read', 'readline', 'next', 'iter'):
                if op == 'read':
                    n = o[1] if len(o) > 1 else None
                    want = rest if n is None else rest[:n]
                    short = n is None or len(rest) < n
                elif op == 'readline':
                    n = o[1] if len(o) > 1 else None
                    want = line(rest, n)
                    short = not want.endswith(b'\n') and (n is None or n < 0 or len(want) < n)
                elif op == 'next':
                    if isinstance(r, dict) and r.get('end'):
                        want, short = b'', True
                        if rest:
                            return ps + [Problem('%s: ended' % what, 'lost')]
                        r = ''
                    else:
                        k = len(r)
                        want, short = rest[:k], False
                        have = len(front) + (min(ends[min(pulls, len(ends) - 1)], stop) - pos)
                        if k == 0 and not (have == 0 and p > pulls and p < len(ends) and ends[p] == ends[p - 1]):
                            return ps + [Problem('%s: gave nothing' % what, 'nothing')]
                else:
                    lens = [len(y) for y in r]
                    want, short = rest[:sum(lens)], len(r) < o[1]
                    if short and want != rest:
                        return ps + [Problem('%s: iteration ended with %r…' % (what, lens[:50]), 'lost')]
                    at = 0
                    for y, k in zip(r, lens):
                        if norm(rest[at:at + k]) != y:
                            return ps + [Problem('%s: iteration gave %r' % (what, r[:50]), 'bytes')]
                        at += k
                    r = norm(want)
                if r != norm(want):
                    return ps + [Problem('%s: gave %r instead of %r' % (what, r, want), 'bytes')]
                if short:
                    self.seen('end reached')
                used = min(len(front), len(want))
                front = front[used:]
                pos += len(want) - used
                tell += len(want)
                events += 1
                if depth == 1 and not closed:
                    # no more pulls than what was handed out (or the end) asked for
                    need = first(ends, pos)
                    if op in ('next', 'iter'):
                        bound = max(pulls, len(ends)) + 1 if short else max(need, p if op == 'next' and p == pulls + 1 and not want else 0, p if op == 'iter' and ends[min(p, len(ends) - 1)] == pos else 0)
                    else:
                        bound = max(pulls, len(ends)) + 1 if short else need
                    if p > max(pulls, bound):
                        ps.append(Problem('%s: the producer was asked %d times, %d were enough' % (what, p, max(pulls, bound)), 'demand'))
            elif op == 'unget':
                front = o[1] + front
                tell -= len(o[1])
                events += bool(o[1])
            elif op == 'repeat':
                n, times = o[1], o[2]
                if rest and times > 51 and n == 0:
                    # (n = 0: taken with next().) The first read may have asked the producer; more than 50 ungets of the same size follow
                    ps.append(Problem('%s: not taken for stuck' % what, 'not stuck'))
                self.seen('peeked')
                events += (1 if taken else 2) * times
                if n == 0:      # what next() gave: all that was put back, or what the producer has given by now
                    n = len(front) if front else max(0, min(ends[min(p, len(ends) - 1)], stop) - pos)
                if rest[:n]:
                    # it is in front now, whether it came from the producer or not
                    if len(front) < len(rest[:n]):
                        extra = len(rest[:n]) - len(front)
                        front += data[pos:pos + extra]
                        pos += extra
            elif op == 'close':
                if limit is None:
                    limit = max(pos, min(ends[min(p, len(ends) - 1)], len(data)))
            elif op == 'tell':
                if r != tell:
                    ps.append(Problem('%s: tell() is %r instead of %r' % (what, r, tell), 'tell'))
            if closed and p > pulls and depth == 1:
                ps.append(Problem('%s: asked the producer after close()' % what, 'demand'))
            if op in ('unget', 'tell', 'close') and p != pulls or op in ('read', 'readline') and len(o) > 1 and o[1] == 0 and p != pulls:
                ps.append(Problem('%s: asked the producer' % what, 'demand'))
            if t != tell:
                ps.append(Problem('%s: tell() is %r instead of %r' % (what, t, tell), 'tell'))
            if depth > 1 and op == 'close':
                return ps       # how much the outer stream holds is not observable
            pulls = p
            if ps:
                return ps
        return ps

    def judge_chunks(self, c, res):
        _, data, size = c.x
        size = size or 64 * 1024
        pieces = [dec(x) for x in res['pieces']]
        at = 0
        for y in pieces:
            k = len(y)
            if not 0 < k <= size:
                return [Problem('a piece of %d bytes with chunk size %d' % (k, size), 'piece size')]
            if norm(data[at:at + k]) != y:
                return [Problem('piece at %d is %r instead of %r' % (at, y, data[at:at + k]), 'piece')]
            at += k
        if at != len(data) or res['more']:
            return [Problem('pieces give %d of %d bytes; %d more when asked again' % (at, len(data), res['more']), 'lost')]
        if any(n > size or n < 0 for n in res['asked']):
            return [Problem('asked for %r with chunk size %d' % (res['asked'], size), 'asked')]
        return []


def r_done(res, i):
    return res['steps'][i][0].get('done', 0)


def line(rest, n):
    k = rest.find(b'\n') + 1 or len(rest)
    if n is not None and n >= 0:
        k = min(k, n)
    return rest[:k]


def chunks(data, spec):
    if spec is None:
        return [data]
    if spec == 'lines':
        return data.splitlines(True)
    if isinstance(spec, int):
        return [data[i:i + spec] for i in range(0, len(data), spec)]
    out, last = [], 0
    for x in list(spec) + [len(data)]:
        out.append(data[last:x])
        last = x
    return out


def first(ends, pos):
    """the number of pulls after which pos bytes are available"""
    for i, e in enumerate(ends):
        if e >= pos:
            return i
    return len(ends)
