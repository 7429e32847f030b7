import copy

from .common import *

KEYS = ['a', 'b', 'c', '', 'k\u20ac', b'\xc3\xa9', 'Ab']


def je(v):
    """a value for a job"""
    if isinstance(v, bytes):
        return {'b': v.decode('latin-1')}
    if isinstance(v, str):
        return {'u': v}
    if isinstance(v, (list, tuple)):
        return [je(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {'s': [je(x) for x in sorted(v)]}
    return v


class Model:
    def __init__(self, cls, d, mut):
        self.cls, self.d, self.mut = cls, d, mut

    def lists(self):
        return self.d


class Same:
    """the outcome of an operation is a KeyError, an AttributeError, .."""

    def __init__(self, *names):
        self.names = names

    def __repr__(self):
        return '/'.join(self.names)


KEYERROR = Same('KeyError')
IMMUTABLE = Same('AttributeError')
TYPEERROR = Same('TypeError')


class ViewsDiffer(Exception):
    pass


def apply(objs, st, got):
    """Execute one operation on the models; the expected result. got: what was observed (only where it decides, as for popitem)."""
    op, name = st[0], st[1]
    if op == 'new':
        cls, how, init = st[2:]
        if how == 'fromkeys':
            v = norm(init[1]) if len(init) > 1 else '' if cls != 'MVD' else None
            d = {}
            for k in init[0]:
                if cls == 'MVD':
                    d[norm(k)] = [v]
                else:
                    d.setdefault(norm(k), []).append(v)
            objs[name] = Model('MVD' if cls == 'MVD' else 'QD', d, cls != 'QDI')
        elif cls == 'parsed':
            objs[name] = Model('IMVD' if how == 'H' else 'QD', None, False)      # content as first observed
        elif cls in ('QD', 'QDI'):
            d = {}
            for k, v in init:
                d.setdefault(norm(k), []).append(norm(v))
            objs[name] = Model('QD', d, cls == 'QD')
        else:
            objs[name] = Model(cls, dict((norm(k), norm(list(v))) for k, v in init), cls == 'MVD')
        return None
    if op == 'copy':
        o, how = objs[st[2]], st[3]
        if how in ('copy', 'shallow') and not (o.cls == 'QD' and how == 'copy'):
            d = dict((k, list(v)) for k, v in o.d.items())
        else:
            d = copy.deepcopy(o.d)
        mut = o.mut
        if o.cls == 'QD' and how in ('copy', 'shallow', 'deep'):
            mut = True
        objs[name] = Model(o.cls, d, mut)
        return None
    m = objs[name]
    d = m.d
    a = [norm(x) for x in st[2:]] if op not in ('update', 'eq') else None
    if op == 'item':
        if a[0] not in d:
            return KEYERROR
        return d[a[0]][-1] if d[a[0]] else []
    if op == 'get':
        v = d[a[0]][-1] if d.get(a[0]) else []
        return (a[1] if len(a) > 1 else None) if v == [] else v
    if op == 'getlist':
        if a[0] not in d:
            return a[1] if len(a) > 1 and a[1] is not None else []
        return list(d[a[0]])
    if op == 'cycle':
        return [True] * 5
    if op == 'in':
        return [a[0] in d] * 2
    if op == 'eq':
        e = m.d == objs[st[2]].d
        return [e, not e]
    if op == 'mutval':
        if a[0] not in d:
            return KEYERROR
        v = d[a[0]][-1] if d[a[0]] else None
        if isinstance(v, dict):
            v['data'] = a[1]
        elif isinstance(v, list):
            v.append(a[1])
        return None
    if op == 'views':
        if not isinstance(got, list) or len(got) != 9:
            raise ViewsDiffer('views cannot be read: %r' % (got,))
        n, bo, it, keys, ik, iv, vals, ls, dd = got
        want = dict((k, v[-1] if v else []) for k, v in d.items())
        if n != len(d) or bo is not bool(d):
            raise ViewsDiffer('len %r and bool %r of %r' % (n, bo, d))
        for k in (it, keys, ik, [x[0] for x in ls]):
            if len(k) != len(d) or set(k) != set(d):
                raise ViewsDiffer('keys %r of %r' % (k, d))
        if not (it == keys == ik) or vals != [want[k] for k in keys] or iv != vals:
            raise ViewsDiffer('keys %r, values %r, items %r of %r' % (keys, vals, list(zip(ik, iv)), d))
        if [x[1] for x in ls] != [d[x[0]] for x in ls] or dict((hashable_key(k), v) for k, v in dd.items()) != want:
            raise ViewsDiffer('lists %r, dict %r of %r' % (ls, dd, d))
        return got
    # everything else changes the object
    if not m.mut:
        if op == 'update' and st[2] not in ('kw', 'both') and not (objs[st[3]].d if st[2] == 'obj' else d if st[2] == 'self' else st[3]):
            return None if m.cls == 'QD' else IMMUTABLE        # nothing to do
        return IMMUTABLE
    if op == 'setitem':
        d[a[0]] = [a[1]]
        return None
    if op == 'del':
        if a[0] not in d:
            return KEYERROR
        del d[a[0]]
        return None
    if op == 'setlist':
        d[a[0]] = [] if a[1] is None else list(a[1]) if isinstance(a[1], list) else [a[1]]
        return None
    if op == 'setdefault':
        if a[0] not in d:
            d[a[0]] = [a[1] if len(a) > 1 else None]
        return d[a[0]][-1] if d[a[0]] else []
    if op == 'setlistdefault':
        if a[0] not in d:
            d[a[0]] = list(a[1]) if len(a) > 1 else []
        return list(d[a[0]])
    if op == 'appendlist':
        d.setdefault(a[0], []).append(a[1])
        return None
    if op == 'pop':
        if a[0] not in d:
            return a[1] if len(a) > 1 else KEYERROR
        return d.pop(a[0])
    if op == 'popitem':
        if not d:
            return KEYERROR
        if not isinstance(got, tuple) or len(got) != 2 or got[0] not in d:
            return ('an item of', d)
        return (got[0], d.pop(got[0]))
    if op == 'clear':
        d.clear()
        return None
    if op == 'update':
        how, what = st[2], st[3]
        if how == 'obj':
            for k, l in [(k, list(l)) for k, l in objs[what].d.items()]:
                d.setdefault(k, []).extend(l)
        elif how == 'self':
            for k in d:
                d[k].extend(list(d[k]))
        elif how == 'mvd':
            for k, l in what:
                d.setdefault(norm(k), []).extend(norm(list(l)))
        else:
            pairs = what if how != 'both' else what[0] + what[1]
            for k, v in pairs:
                d.setdefault(norm(k), []).append(norm(v))
        return None
    raise ValueError(op)


def hashable_key(k):
    return k


def value(rng, nested=True):
    r = rng.random()
    if r < 0.08 and nested:
        return ['n%d' % rng.randint(0, 9) for _ in range(rng.randint(0, 2))]
    if r < 0.12:
        return rng.choice([None, 0, 7, True, []])
    if r > 0.995:
        return gen.text_of(rng, 'abcdefgh', gen.large(rng, 50, 6000))
    return rng.choice(['', 'x', 'y', 'val', 'é\u20ac', b'\xff\xc3', 'v%d' % rng.randint(0, 99)])


def some(rng):
    """values of one key: a few, rarely many"""
    return [value(rng) for _ in range(rng.randint(0, 3))] if rng.random() < 0.98 else ['w%d' % i for i in range(gen.large(rng, 8, 400))]


def unique(rng, n=3):
    if rng.random() < 0.01:
        return ['k%d' % i for i in range(gen.large(rng, 8, 400))] + ['a']
    ks = rng.sample(KEYS, rng.randint(0, n))
    return ks


REQUESTS = {
    'H': b'GET / HTTP/1.1\r\nHost: h\r\nX-A: 1\r\nX-A: 2\r\nCookie: c=d\r\n\r\n',
    'GET': b'GET /?a=1&a=2&b=&c=x%20y HTTP/1.1\r\nHost: h\r\n\r\n',
    'POST': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 17\r\n\r\na=1&a=2&b=&c=x%20',
    'MP': (b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: 170\r\n\r\n'
           + (b'--B\r\nContent-Disposition: form-data; name="a"\r\n\r\n1\r\n--B\r\nContent-Disposition: form-data; name="a"\r\n\r\n2\r\n--B\r\nContent-Disposition: form-data; name="b"\r\n\r\n\r\n--B--').ljust(170, b' ')),
}


def multipart_request(*parts):
    body = b''.join(b'--B\r\nContent-Disposition: form-data; name="%s"%s\r\n\r\n%s\r\n' % p for p in parts) + b'--B--'
    return b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %d\r\n\r\n' % len(body) + body


REQUESTS.update({
    'MPF': multipart_request((b'f', b'; filename="x"', b'data')),
    'MPM': multipart_request((b'a', b'', b'1'), (b'f', b'; filename="x"', b'data'), (b'a', b'', b'2')),
    'MP0': multipart_request(),
    'GETE': REQUESTS['GET'],
    'GETC': REQUESTS['GET'].replace(b'Host: h', b'Content-Type: text/plain; charset=utf-8\r\nHost: h'),
    'POST0': b'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n\r\na=1',
})
NO_CONTENT = ('MPF', 'MP0')


def query(rng, pairs):
    import urllib.parse
    return '&'.join(urllib.parse.quote(k, encoding='latin-1', safe='') + '=' + urllib.parse.quote_plus(v, encoding='latin-1') for k, v in pairs)


class CHECK(Check):
    id = 'C01'
    n = 1900
    thorough = 14
    rule = ('histories of operations on several dictionaries made in all ways and copied in all ways, with values that can be changed themselves; every result and the content of every dictionary after every operation against a model of plain lists; '
            'distinct by history')
    technique = 'runtime monitoring: model-based trace checking of operation histories'
    required = tuple('op:' + o for o in ('item', 'get', 'getlist', 'setitem', 'setlist', 'setdefault', 'setlistdefault', 'appendlist', 'update', 'pop', 'popitem', 'del', 'clear', 'views', 'copy', 'mutval', 'cycle')) + (
        'cls:MVD', 'cls:QD', 'how:copy', 'how:shallow', 'how:deep', 'how:pickle0', 'how:pickle1', 'how:pickle2', 'how:ppickle2', 'KeyError', 'empty list', 'fromkeys', 'many values', 'many keys')
    assumptions = ['== is not judged (Jython compares the last values of dict subclasses that define item access)',
                   'the lists that lists() and setlistdefault() hand out are the ones inside (not claimed to be copies)']
    kinds = [(4, 'MVD'), (3, 'QD'), (1, 'IMVD'), (1, 'QDI')]
    copies = 1.2
    mutvals = 0.7
    length = (6, 26)

    def cases(self):
        for i in range(self.n * self.scale):
            yield self.one(self.rng)

    def new(self, rng, name):
        cls = gen.pick(rng, self.kinds)
        if cls in ('MVD', 'QD', 'QDI') and rng.random() < 0.2:
            init = [[rng.choice(['a', 'b', 'c', '', 'Ab']) for _ in range(rng.randint(0 if cls == 'QD' else 1, 4))]]
            if rng.random() < 0.5:
                init.append(rng.choice(['x', 'y', '', 'é']))
            return ['new', name, cls, 'fromkeys', init], ['new', name, cls, 'fromkeys', je(init)]
        if cls in ('QD', 'QDI'):
            pairs = [(rng.choice(['a', 'b', 'c', '', 'Ab', 'é']), rng.choice(['', 'x', 'x y', 'é', '&=', '1'])) for _ in range(rng.randint(0 if cls == 'QD' else 1, 4))]
            if rng.random() < 0.02:
                pairs = [('k%d' % (i if i % 5 else 0), 'w%d' % i) for i in range(gen.large(rng, 8, 400))]
            return ['new', name, cls, rng.choice(['ISO-8859-1', '']), pairs], ['new', name, cls, '', {'b': query(rng, pairs)}]
        if cls == 'parsed':
            how = rng.choice(['H', 'H', 'GET', 'GET', 'GETE', 'GETC', 'POST', 'MP', 'MPF', 'MPM', 'MP0', 'POST0'])
            return ['new', name, cls, how, None], ['new', name, cls, {'H': 'H', 'GET': 'GET', 'GETC': 'GET', 'GETE': 'GETE'}.get(how, 'POST'), src(REQUESTS[how])]
        init = [(k, some(rng)) for k in unique(rng)]
        how = rng.choice(['dict', 'pairs', 'mvd'])
        return ['new', name, cls, how, init], ['new', name, cls, how, je(init)]

    def one(self, rng):
        ops, job, tags, names, cls = [], [], set(), [], {}
        keys = rng.sample(KEYS, rng.randint(2, 4))

        def key():
            return rng.choice(keys) if rng.random() < 0.93 else rng.choice(KEYS)
        hist = []
        for i in range(rng.randint(*self.length)):
            if not names or len(names) < 5 and rng.random() < 0.06:
                n = 'o%d' % len(names)
                a, j = self.new(rng, n)
                names.append(n)
                cls[n] = 'QD' if a[2] in ('QD', 'QDI') or a[2] == 'parsed' and a[3] != 'H' else a[2]
                tags.add('cls:' + a[2])
                if a[3] == 'fromkeys':
                    tags.add('fromkeys')
                ops.append(a)
                job.append(j)
                continue
            name = rng.choice(names)
            qd = cls[name] == 'QD'
            op = gen.pick(rng, [(1.3, 'item'), (1.3, 'get'), (1.2, 'getlist'), (2, 'setitem'), (1.6, 'setlist'), (1.2, 'setdefault'), (1.2, 'setlistdefault'), (2, 'appendlist'), (2.2, 'update'), (1.2, 'pop'),
                                (0.5, 'popitem'), (1, 'del'), (0.3, 'clear'), (1, 'views'), (0.4, 'in'), (0.15, 'cycle'), (self.copies, 'copy'), (self.mutvals, 'mutval')])
            if op == 'copy' and len(names) >= 7:
                op = 'views'
            if op in ('item', 'del', 'in'):
                a = [op, name, key()]
            elif op == 'get':
                a = [op, name, key()] + ([value(rng)] if rng.random() < 0.5 else [])
            elif op == 'getlist':
                a = [op, name, key()] + ([rng.choice([None, [], ['d', 'e'], 'dflt'])] if rng.random() < 0.4 else [])
                if len(a) > 3 and a[3] == 'dflt':
                    a[3] = ['x']
            elif op in ('setitem', 'appendlist'):
                a = [op, name, key(), value(rng)]
            elif op == 'setlist':
                a = [op, name, key(), some(rng) if qd or rng.random() < 0.8 else rng.choice([None, 'scalar', 7, ''])]
            elif op == 'setdefault':
                a = [op, name, key()] + ([value(rng)] if rng.random() < 0.8 else [])
            elif op == 'setlistdefault':
                a = [op, name, key()] + ([some(rng)] if rng.random() < 0.7 else [])
            elif op == 'pop':
                a = [op, name, key()] + ([rng.choice([None, 'dflt', []])] if rng.random() < 0.4 else [])
            elif op in ('popitem', 'clear', 'views', 'cycle'):
                a = [op, name]
            elif op == 'copy':
                new = 'o%d' % len(names)
                how = rng.choice(['copy', 'copy', 'shallow', 'deep', 'pickle0', 'pickle1', 'pickle2', 'ppickle0', 'ppickle1', 'ppickle2'])
                a = [op, new, name, how]
                names.append(new)
                cls[new] = cls[name]
                tags.add('how:' + how)
            elif op == 'mutval':
                a = [op, name, rng.choice(['a', 'b']) if rng.random() < 0.5 else key(), 'M%d' % rng.randint(0, 9)]
            elif op == 'eq':
                a = [op, name, rng.choice(names)]
            else:
                how = rng.choice(['dict', 'dict', 'obj', 'obj', 'mvd', 'kw', 'both', 'self'])
                if how == 'obj':
                    what = rng.choice(names)
                elif how == 'self':
                    what = None
                elif how == 'mvd':
                    what = [(k, some(rng)) for k in unique(rng)]
                elif how == 'kw':
                    what = [(k, value(rng)) for k in rng.sample(['a', 'b', 'c', 'Ab'], rng.randint(1, 2))]
                elif how == 'both':
                    what = [[(k, value(rng)) for k in unique(rng)], [(k, value(rng)) for k in rng.sample(['a', 'b', 'c'], rng.randint(1, 2))]]
                else:
                    what = [(k, value(rng)) for k in unique(rng)]
                a = [op, name, how, what]
            tags.add('op:' + op)
            ops.append(a)
            if op == 'copy' or op == 'eq':
                job.append(a)
            elif op == 'update':
                job.append([op, name, a[2], a[3] if a[2] == 'obj' else je(a[3])])
            else:
                job.append([op, name] + [je(x) for x in a[2:]])
        return Case({'op': 'dicts', 'steps': job}, ops, sorted(tags))

    def judge(self, c, res):
        objs, last = {}, {}
        for i, (st, (r, change)) in enumerate(zip(c.x, steps(res))):
            try:
                want = apply(objs, st, r)
            except ViewsDiffer as e:
                return [Problem('step %d %r: %s' % (i, st, e), 'views')]
            change = dict((n, l) for n, l in change)
            if st[0] == 'new' and st[2] == 'parsed':
                if not change.get(st[1]) and st[3] not in NO_CONTENT:
                    return [Problem('step %d: %r has no content: %r %r' % (i, st, r, change), 'parsed')]
                objs[st[1]].d = dict((k, l) for k, l in copy.deepcopy(change[st[1]]))
            if isinstance(want, Same):
                self.seen(want.names[0])
                if not is_exc(r, *want.names):
                    return [Problem('step %d %r: got %r instead of %s' % (i, st, r, want), 'exception')]
            elif r != want or isinstance(r, bool) != isinstance(want, bool):
                return [Problem('step %d %r: got %r, expected %r' % (i, st, r, want), 'result')]
            last.update(change)
            for n, m in objs.items():
                l = last.get(n)
                if l is None or len(l) != len(m.d) or dict((k, v) for k, v in l) != m.d:
                    return [Problem('step %d %r: %s has %r, expected %r' % (i, st, n, l, m.d), 'content')]
                if len(m.d) > 64:
                    self.seen('many keys')
                if st[0] == 'item' and any(len(v) > 64 for v in m.d.values()):
                    self.seen('many values')
                if st[0] == 'item' and any(v == [] for v in m.d.values()):
                    self.seen('empty list')
        return []
