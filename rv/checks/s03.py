import os
import posixpath

from .common import *

KEYS = {'FILE_UPLOAD_TEMP_DIR': 'FILE_UPLOAD_TEMP_DIR', 'MAX_HEADER_SIZE': 'MAX_HEADER_SIZE', 'FILE_UPLOAD_MAX_MEMORY': 'FILE_UPLOAD_MAX_MEMORY_SIZE',
        'DATA_UPLOAD_MAX_MEMORY': 'DATA_UPLOAD_MAX_MEMORY_SIZE', 'DATA_UPLOAD_MAX_FIELDS': 'DATA_UPLOAD_MAX_NUMBER_FIELDS', 'DEFAULT_CHARSET': 'DEFAULT_CHARSET'}
DEFAULTS = {'FILE_UPLOAD_TEMP_DIR': '%/files/file_uploads', 'MAX_HEADER_SIZE': 16, 'FILE_UPLOAD_MAX_MEMORY_SIZE': 30 << 20, 'DATA_UPLOAD_MAX_MEMORY_SIZE': 5 << 20, 'DATA_UPLOAD_MAX_NUMBER_FIELDS': 4096,
            'DEFAULT_CHARSET': 'ISO-8859-1', 'FILE_UPLOAD_HANDLERS': ['request_parser.files.uploadhandler.ConvenientFileUploadHandler']}
VALUES = {'MAX_HEADER_SIZE': [1, 2, 16, 17, 4096, 1 << 40], 'FILE_UPLOAD_MAX_MEMORY': [0, 1, 9, 10, 11, 1 << 20, 1 << 33], 'DATA_UPLOAD_MAX_MEMORY': [3, 10, 21, 22, 23, 1 << 20, 1 << 40, None],
          'DATA_UPLOAD_MAX_FIELDS': [1, 2, 3, 4, 4096, 1 << 20, None, 0], 'DEFAULT_CHARSET': ['utf-8', 'koi8-r', 'ISO-8859-1', 'windows-1252', 'UTF-8']}
FORM = b'a=%C3%A9&bb=2&ccc=3x9y'        # 22 bytes, 3 fields
FILE = b'0123456789'
BAD_HANDLERS = ['nodots', '', '.X', '..X', 'os..X', 'request_parser..files.X', 'os/path.join', 'no.such.module.Handler', 'request_parser.files.uploadhandler.NoSuchHandler', 'request_parser.files.nosuch.Handler', 'request_parser.files.uploadhandler.', '.', 'os.path.nosuch', 'Xrequest_parser.files.uploadhandler.MemoryFileUploadHandler',
                'request_parser.files.uploadhandler.ConvenientFileUploadHandlerX']


class Model:
    def __init__(self):
        self.fs = {}
        self.objs = {}
        self.dicts = {}
        self.links = {}

    def resolve(self, p):
        return self.links.get(p, p)

    def isdir(self, p):
        p = self.resolve(p)
        return p == '' or (p in self.fs and self.fs[p] is None)

    def use_dir(self, p):
        """(path reported, created?) or None if refused"""
        if self.isdir(p):
            return '$/' + p if p else '$'
        parent = posixpath.dirname(p)
        if p in self.fs or not self.isdir(parent) or len(posixpath.basename(p)) > 255:
            return None
        self.fs[self.resolve(parent) + '/' + posixpath.basename(p) if parent else p] = None
        return '$/' + p

    def make(self, items):
        st = dict(DEFAULTS, FILE_UPLOAD_HANDLERS=list(DEFAULTS['FILE_UPLOAD_HANDLERS']))
        for k, v in items.items():
            if k not in KEYS:
                continue
            if isinstance(v, dict):
                how, p = v['path']
                if how == 'sys':
                    return None
                v = self.use_dir(p)
                if v is None:
                    return None
            st[KEYS[k]] = v
        return st

    def form(self, st):
        mem, fields = st['DATA_UPLOAD_MAX_MEMORY_SIZE'], st['DATA_UPLOAD_MAX_NUMBER_FIELDS']
        if mem is not None and len(FORM) > mem:
            return 'RequestDataTooBig'
        if fields and fields < 3:
            return 'TooManyFieldsSent'
        return [['a', [b'\xc3\xa9'.decode(st['DEFAULT_CHARSET'])]], ['bb', ['2']], ['ccc', ['3x9y']]]


class CHECK(Check):
    id = 'S03'
    n = 700
    thorough = 10
    rule = ('settings objects made from random subsets of the keys (also an empty dictionary, a subclass of dict, unknown keys), with upload directories of all kinds in a scratch tree, with changes to dictionaries and other settings objects in '
            'between, requests parsed under them, and many made at once in threads; compared with a model of the settings and of the file system; distinct by job')
    technique = 'runtime monitoring: model of settings and file system; concurrent stress'
    required = ('dir existing', 'dir missing', 'dir refused', 'dir relative', 'dir link', 'empty dict', 'subclass', 'subset', 'dict changed', 'set', 'form', 'RequestDataTooBig', 'TooManyFieldsSent', 'file', 'on disk', 'in memory', 'handlers', 'bad handler',
                'race missing', 'race existing', 'unknown key', 'kept acdr')
    assumptions = ['runs as root: directories without write permission are represented by /proc, where no file can be created']

    def cases(self):
        for i in range(self.n * self.scale):
            yield self.one(self.rng)

    def one(self, rng):
        m = Model()
        steps, want, tags = [], [], []

        def do(st, w):
            steps.append(st)
            want.append(w)
        if rng.random() < 0.08:
            ex = rng.random() < 0.4
            n, rounds = rng.choice([2, 4, 8]), rng.choice([4, 8])
            do(['race', n, rounds, ex], [w for r in range(rounds) for w in ['$/race%d' % r] * n + [[['kept', '']] if ex else []]])
            tags.append('race existing' if ex else 'race missing')
        # a small tree
        for d in ('d1', 'd1/d2', 'with space', 'd\xe9'.replace('\xe9', 'e')):
            if rng.random() < 0.6 and (posixpath.dirname(d) == '' or m.isdir(posixpath.dirname(d))):
                do(['mkdir', d], None)
                m.fs[d] = None
        dirs = [d for d in m.fs]
        for d in dirs + ['']:
            for f in ('acdr423x.tmp', 'file', 'keep.upload.x'):
                if rng.random() < 0.4:
                    p = d + '/' + f if d else f
                    data = bytes(rng.choice(b'ab\n') for _ in range(rng.randint(0, 9)))
                    do(['mkfile', p, b(data)], None)
                    m.fs[p] = data
        if any(x.endswith('acdr423x.tmp') for x in m.fs):
            tags.append('kept acdr')
        if dirs and rng.random() < 0.3:
            t = rng.choice(dirs)
            do(['link', 'ln', t], None)
            m.links['ln'] = t

        def rand_dir():
            r = rng.random()
            if r < 0.1:
                tags.append('dir refused')
                return {'path': ['sys', rng.choice(['/proc', '/proc/rv-no-such', '/dev/null', '/dev/null/x'])]}
            how = rng.choice(['abs', 'abs', 'rel', 'rel', 'slash', 'dots'])
            p = rng.choice(dirs + ['new', 'new', 'd1/new', 'new/er', 'no/such/parent', 'file', 'd1/file', 'file/x', 'n' * 300, 'ln', 'new.dir', 'ln', 'ln/new'])
            if p.startswith('ln'):
                if p.split('/')[0] not in m.links:
                    p = 'new2'
                else:
                    tags.append('dir link')
            if how == 'dots' and (not m.isdir(posixpath.dirname(p)) or p.startswith('ln')):
                how = 'abs'
            if how == 'rel':
                tags.append('dir relative')
            if m.isdir(p):
                tags.append('dir existing')
            else:
                before = dict(m.fs)
                tags.append('dir missing' if m.use_dir(p) else 'dir refused')
                m.fs = before
            return {'path': [how, p]}

        def job_items(items):
            return [[k, v if isinstance(v, dict) else b(v) if isinstance(v, str) else v] for k, v in items.items()]

        def rand_items():
            ks = [k for k in KEYS if rng.random() < rng.choice([0, 0.2, 0.5, 0.5, 1])]
            rng.shuffle(ks)
            items = {}
            for k in ks:
                items[k] = rand_dir() if k == 'FILE_UPLOAD_TEMP_DIR' else rng.choice(VALUES[k])
            if rng.random() < 0.15:
                items[rng.choice(['UNKNOWN', 'FILE_UPLOAD_MAX_MEMORY_SIZE', 'DATA_UPLOAD_MAX_NUMBER_FIELDS', 'FILE_UPLOAD_DIR', 'x', 'default'])] = 7
                tags.append('unknown key')
            return items
        log_want = []
        for _ in range(rng.randint(2, 9)):
            op = gen.pick(rng, [(5, 'make'), (0.7, 'default'), (0.7, 'share'), (1, 'dictset'), (0.5, 'dictclear'), (1.5, 'set'), (2, 'form'), (2, 'file'), (1.2, 'bad')])
            names = [n for n in m.objs]
            if op == 'make' or not names and op != 'default':
                name = 's%d' % len(m.dicts)
                items = rand_items()
                kind = rng.choice(['dict', 'dict', 'dict', 'sub'])
                tags.append('empty dict' if not items else 'subset' if len(items) < 6 else 'all')
                if kind == 'sub':
                    tags.append('subclass')
                st = m.make(items)
                do(['make', name, job_items(items), kind], st)
                m.dicts[name] = items
                if st is not None:
                    m.objs[name] = st
            elif op == 'default':
                name = 'd%d' % len(m.dicts)
                do(['default', name], dict(DEFAULTS))
                m.objs[name] = dict(DEFAULTS)
                m.dicts[name] = None
            elif op == 'share':
                n = rng.choice(names)
                if m.dicts.get(n) is None:
                    continue
                name = 's%d' % len(m.dicts)
                st = m.make(m.dicts[n])
                do(['share', name, n], st)
                m.dicts[name] = m.dicts[n]
                if st is not None:
                    m.objs[name] = st
                    do(['dictset', n, []], None)
            elif op in ('dictset', 'dictclear'):
                n = rng.choice(names)
                if m.dicts.get(n) is None or sum(m.dicts[n] is d for d in m.dicts.values()) > 1:
                    continue
                tags.append('dict changed')
                if op == 'dictset':
                    k = rng.choice([k for k in KEYS if k in VALUES])
                    v = rng.choice(VALUES[k])
                    do(['dictset', n, job_items({k: v})], None)
                    m.dicts[n] = dict(m.dicts[n], **{k: v})
                else:
                    do(['dictclear', n], None)
                    m.dicts[n] = {}
            elif op == 'set':
                n = rng.choice(names)
                k = rng.choice([k for k in KEYS if k in VALUES])
                v = rng.choice(VALUES[k])
                do(['set', n, KEYS[k], b(v) if isinstance(v, str) else v], None)
                m.objs[n] = dict(m.objs[n], **{KEYS[k]: v})
                tags.append('set')
            elif op in ('form', 'bad'):
                n = rng.choice(names)
                st = m.objs[n]
                head = b'POST /x HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n' % len(FORM)
                if op == 'form':
                    hs, w = None, m.form(st) if st.get('_hs') != 'bad' else 'ImportError'
                    tags.append(w if isinstance(w, str) else 'form')
                    w = w if isinstance(w, str) else {'POST': w, 'FILES': []}
                else:
                    hs = rng.choice([[], ['mem'], ['temp', 'mem']])
                    hs.insert(rng.randint(0, len(hs)), rng.choice(BAD_HANDLERS))
                    w = 'ImportError'
                    tags.append('bad handler')
                    m.objs[n] = dict(st, FILE_UPLOAD_HANDLERS=None, _hs='bad')
                do(['request', n, src(head + FORM, gen.cuts(rng, len(head + FORM))), hs], w)
            else:
                n = rng.choice(names)
                st = m.objs[n]
                d = st['FILE_UPLOAD_TEMP_DIR']
                in_scratch = d.startswith('$')
                body = b'--B\r\nContent-Disposition: form-data; name="f"; filename="n.txt"\r\n\r\n' + FILE + b'\r\n--B--\r\n'
                head = b'POST /x HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %d\r\n\r\n' % len(body)
                hs = rng.choice([['conv'], ['mem'], ['temp'], ['temp', 'mem'], ['mem', 'temp'], None])
                if st.get('_hs') == 'bad' and hs is None:
                    hs = ['conv']
                eff = hs or ['conv'] if hs is not None or st['FILE_UPLOAD_HANDLERS'] == DEFAULTS['FILE_UPLOAD_HANDLERS'] else st['_hs']
                disk = eff[0] == 'temp' or eff[0] == 'conv' and len(FILE) > st['FILE_UPLOAD_MAX_MEMORY_SIZE']
                sure = eff[0] == 'temp' or eff == ['conv'] and abs(len(FILE) - st['FILE_UPLOAD_MAX_MEMORY_SIZE']) > 1
                if not in_scratch and (disk or not sure) or not sure:
                    continue
                if hs is not None:
                    m.objs[n] = dict(st, FILE_UPLOAD_HANDLERS=None, _hs=hs)
                    tags.append('handlers')
                tags.append('file')
                tags.append('on disk' if disk else 'in memory')
                do(['request', n, src(head + body, gen.cuts(rng, len(head + body))), hs], {'file': d if disk else None})
            if rng.random() < 0.5:
                do(['states'], dict((n, dict(s)) for n, s in m.objs.items()))
                do(['tree'], dict(m.fs, **dict((l, None) for l in m.links)))
        do(['states'], dict((n, dict(s)) for n, s in m.objs.items()))
        do(['tree'], dict(m.fs, **dict((l, None) for l in m.links)))
        return Case({'op': 'settings_lab', 'steps': steps}, want, tags)

    def judge(self, c, res):
        ps = []
        if not res['untouched']:
            ps.append(Problem('the list of handlers of the class was changed', 'class'))
        for st, r, w in zip(c.job['steps'], steps(res), c.x):
            self.judge_step(ps, st, r, w)
        return ps

    def state_ok(self, got, want):
        if not isinstance(got, dict):
            return False
        w = dict((k, norm(v)) for k, v in want.items() if not k.startswith('_') and v is not None or k in KEYS.values())
        return all(got.get(k) == v and isinstance(got.get(k), type(v)) for k, v in w.items())

    def judge_step(self, ps, st, r, w):
        op = st[0]
        text = '%s: got %r, expected %r' % (st[:3], r, w)
        if op in ('make', 'default', 'share'):
            if w is None:
                if not is_exc(r, 'InvalidDirectory'):
                    ps.append(Problem('an unusable directory is not refused: ' + text, 'refuse'))
            elif not self.state_ok(r, w):
                ps.append(Problem(text, 'state'))
        elif op == 'states':
            if not isinstance(r, list) or sorted(x[0] for x in r) != sorted(w) or not all(self.state_ok(s, w[n]) for n, s in r):
                ps.append(Problem(text, 'states'))
        elif op == 'tree':
            if not isinstance(r, list) or dict((p, d) for p, d in r) != dict((p, None if d is None else norm(d)) for p, d in w.items()):
                ps.append(Problem(text, 'tree'))
        elif op == 'race':
            if r != w:
                ps.append(Problem('made at once: ' + text, 'race'))
        elif op == 'request':
            if isinstance(w, str):
                if not is_exc(r, w):
                    ps.append(Problem(text, 'request'))
            elif is_exc(r) or not isinstance(r, dict):
                ps.append(Problem(text, 'request'))
            elif 'file' in w:
                f = r['FILES'][0][1][0] if len(r['FILES']) == 1 else {}
                if r['POST'] != [] or f.get('data') != norm(FILE) or ('path' in f) != (w['file'] is not None) or w['file'] is not None and posixpath.dirname(f['path']) != w['file']:
                    ps.append(Problem(text, 'file'))
            elif r['FILES'] != [] or not lists_equal(r['POST'], w['POST']):
                ps.append(Problem(text, 'request'))
        elif is_exc(r):
            ps.append(Problem(text, 'step'))
