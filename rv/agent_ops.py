# -*- coding: utf-8 -*-
"""Further operations of the agent."""
import copy
import os
import sys

import java.lang

import agent
from agent import dec, enc, enc_exc, register, do_req


@register('each')
def do_each(job):
    """One request, several deliveries and configurations: {"base": req job, "variants": [{...changes}]}"""
    out = []
    for v in job['variants']:
        j = dict(job['base'])
        j['settings'] = dict(j.get('settings') or {})
        j['src'] = dict(j['src'])
        if 'cuts' in v:
            j['src']['cuts'] = v['cuts']
        if 'mhs' in v:
            j['settings']['MAX_HEADER_SIZE'] = v['mhs']
        if 'chunk_size' in v and j.get('handlers') is not None:
            j['handlers'] = [{'builtin': h, 'chunk_size': v['chunk_size']} for h in j['handlers']]
        if 'io' in v:
            j['src']['io'] = v['io']
        r = do_req(j)
        out.append(r['steps'])
    return {'variants': out}


@register('faults')
def do_faults(job):
    """One request whose source fails (or just ends) at several offsets: {"base": req job, "variants": [{"upto": offset, "cuts": ..,
    "kind": error or None for an early end}]}"""
    out = []
    data = dec(job['base']['src']['data'])
    for v in job['variants']:
        j = dict(job['base'])
        d = data[:v['upto']]
        cuts = v.get('cuts')
        if isinstance(cuts, list):
            cuts = [x for x in cuts if x <= len(d)]
        j['src'] = {'data': {'b': d.decode('latin-1')}, 'cuts': cuts}
        if v.get('kind'):
            j['src']['fail'] = len(agent.cut(d, cuts))
            j['src']['kind'] = v['kind']
        j['steps'] = [s for s in j['steps']]
        out.append(do_req(j)['steps'])
    return {'variants': out}


@register('fobj')
def do_fobj(job):
    """Operations on one uploaded file object: {"kind": mem|disk|simple|dict, "name", "data", "ops"}"""
    from request_parser.files import uploadedfile as uf
    from request_parser.conf.settings import Settings
    from io import BytesIO
    data = dec(job['data'])
    name = dec(job['name'])
    kind = job['kind']
    # a file of the name that the client chose, which must not be opened
    p = os.path.join(agent.BASE, 'cwd', name) if name else None
    if p and job.get('decoy'):
        fh = open(p, 'wb')
        fh.write('decoy')
        fh.close()
    try:
        if kind == 'mem':
            f = uf.InMemoryUploadedFile(BytesIO(data), 'field', name, 'a/b', len(data), 'cs', {'x': 'y'}, '8bit')
        elif kind == 'simple':
            f = uf.SimpleUploadedFile(name, data if data or job['decoy'] else None, *job.get('ctype', []))
        elif kind == 'dict':
            f = uf.SimpleUploadedFile.from_dict(dict({'filename': name, 'content': data}, **dict(('content-type', t) for t in job.get('ctype', []))))
        else:
            s = Settings.default()
            s.FILE_UPLOAD_TEMP_DIR = os.path.join(agent.BASE, 'up')
            f = uf.TemporaryUploadedFile(name, 'a/b', len(data), 'cs', s, {'x': 'y'}, '8bit')
            f.write(data)
            f.seek(0)
        out = [agent.file_op(f, o) for o in job['ops']]
        path = f.temporary_file_path() if kind == 'disk' else None
        closed = bool(f.closed)
        exists = os.path.exists(path) if path else None
        f.close()
        return {'steps': out, 'exists': exists, 'closed': closed, 'left': [os.path.exists(path)] if path else None}
    finally:
        if p and job.get('decoy'):
            os.unlink(p)


class Reader(object):
    """a file with nothing but read()"""
    def __init__(self, data):
        self._data = data

    def read(self, n=-1):
        n = len(self._data) if n is None or n < 0 else n
        r, self._data = self._data[:n], self._data[n:]
        return r


class ShortReader(Reader):
    """a reader that gives less than it is asked for"""
    def __init__(self, data, pieces):
        Reader.__init__(self, data)
        self._pieces, self._n = pieces, 0

    def read(self, n=-1):
        self._n += 1
        k = self._pieces[self._n % len(self._pieces)]
        return Reader.read(self, k if n is None or n < 0 else min(n, k))


def short_buffer(data, pieces):
    import io

    class Short(io.BytesIO):
        n = 0

        def read(self, n=-1):
            Short.n += 1
            k = pieces[Short.n % len(pieces)]
            return io.BytesIO.read(self, k if n is None or n < 0 else min(n, k))
    return Short(data)


def pipe(data):
    import io

    class Pipe(Reader):
        def seek(self, *args):
            raise io.UnsupportedOperation('seek')
    return Pipe(data)


@register('wrapper')
def do_wrapper(job):
    """Operations on a plain file in the wrapper of the library: {"kind", "name", "data", "mode", "ops"}"""
    from request_parser.files.base import File, ContentFile
    from io import BytesIO
    data = dec(job['data'])
    name = dec(job['name'])
    kind = job['kind']
    path = os.path.join(agent.BASE, 'cwd', 'wrapped file')
    raw = None
    try:
        if kind == 'content':
            f = ContentFile(data) if name is None else ContentFile(data, name)
        else:
            if kind == 'bytesio':
                raw = BytesIO(data)
            elif kind == 'file':
                fh = open(path, 'wb')
                fh.write(data)
                fh.close()
                raw = open(path, str(job['mode']))
            elif kind == 'reader':
                raw = Reader(data)
            elif kind == 'short':
                raw = ShortReader(data, job['pieces'])
            elif kind == 'shortseek':
                raw = short_buffer(data, job['pieces'])
            elif kind == 'pipe':
                raw = pipe(data)
            elif kind == 'sized':
                class Sized(BytesIO):
                    size = len(data)
                raw = Sized(data)
            f = File(raw) if name is None else File(raw, name)
        out = [agent.file_op(f, o) for o in job['ops']]
        disk = None
        if kind == 'file':
            f.close()
            fh = open(path, 'rb')
            disk = enc(fh.read())
            fh.close()
        return {'steps': out, 'disk': disk, 'path': enc(path), 'raw_closed': bool(getattr(raw, 'closed', False))}
    finally:
        if os.path.exists(path):
            os.unlink(path)


@register('mpp')
def do_mpp(job):
    """The multipart parser without a request: {"meta": [[name, value]], "container", "input", "handlers", "settings", "src", "encoding"}"""
    from io import BytesIO
    from request_parser.files.uploadhandler import load_handler
    from request_parser.http.multipartparser import MultiPartParser
    from request_parser.utils.datastructures import LazyStream, MultiValueDict, ImmutableMultiValueDict
    log = []
    spec = dict(job.get('settings') or {})
    agent.job_dirs(job)
    spec['FILE_UPLOAD_TEMP_DIR'] = os.path.join(agent.BASE, job['updir'])
    settings = agent.make_settings(spec)
    before = agent.settings_state(settings)
    meta = [(dec(k), dec(v)) for k, v in job['meta']]
    if job['container'] == 'dict':
        META = dict(meta)
    else:
        META = {'mvd': MultiValueDict, 'imvd': ImmutableMultiValueDict}[job['container']]([(k, [v]) for k, v in meta])
    data = dec(job['src']['data'])
    path = os.path.join(agent.BASE, 'cwd', 'input')
    src = None
    if job['input'] == 'lazy':
        src = agent.Source(agent.cut(data, job['src']['cuts']))
        stream = LazyStream(src)
    elif job['input'] == 'bytesio':
        stream = BytesIO(data)
    elif job['input'] == 'short':
        stream = ShortReader(data, job['shorts'])
    else:
        fh = open(path, 'wb')
        fh.write(data)
        fh.close()
        stream = open(path, 'rb')
    POST = FILES = None
    try:
        handlers = [load_handler(p, None) if job['request'] else load_handler(p) for p in agent.install_handlers(job['handlers'], log, None)]
        try:
            parser = MultiPartParser(META, stream, handlers, settings, **({'encoding': str(job['encoding'])} if job['encoding'] else {}))
        except Exception as e:
            return {'steps': [enc_exc(e)], 'where': 'init'}
        if src is not None and src.pulls:
            return {'steps': [{'pulled': src.pulls}]}
        try:
            POST, FILES = parser.parse()
            out = [{'POST': agent.lists(POST), 'FILES': agent.files(FILES), 'cls': [type(POST).__name__, type(FILES).__name__], 'mutate': agent.try_mutate(POST, 'setitem'), 'meta': sorted([enc(k), enc(META[k])] for k in META)}]
        except Exception as e:
            out = [enc_exc(e)]
        left = 0
        while True:
            n = len(stream.read(100000))
            left += n
            if not n:
                break
        return {'steps': out, 'left': left, 'log': log, 'same': agent.settings_state(settings) == before}
    finally:
        if FILES is not None:
            for _, l in FILES.lists():
                for f in l:
                    f.close()
        if job['input'] == 'file':
            stream.close()
            os.unlink(path)


@register('together')
def do_together(job):
    """Requests alone, together, and alone again. {"jobs": [...], "mode": seq|nested|threads, "shared": settings spec, "order": [...],
    "pulls": [...], "updir"}"""
    import threading
    import time
    import java.lang
    from request_parser.conf.settings import Settings
    jobs = job['jobs']
    n = len(jobs)
    agent.job_dirs(job)

    def settings():
        return agent.make_settings(dict(job['shared'], FILE_UPLOAD_TEMP_DIR=os.path.join(agent.BASE, job['updir'])))
    alone = [do_req(dict(j, use_settings=settings()))['steps'] for j in jobs]
    shared = settings()
    before = agent.settings_state(shared), agent.settings_state(Settings.default()), list(Settings.FILE_UPLOAD_HANDLERS)
    ctxs = [agent.Ctx() for _ in jobs]
    results = [None] * n
    overlap = 0

    def run(i, **k):
        j = dict(jobs[i], use_settings=shared, autoclose=False)
        j.update(k)
        results[i] = do_req(j, ctxs[i])['steps']
    if job['mode'] == 'seq':
        for i in job['order']:
            run(i)
    elif job['mode'] == 'nested':
        todo = sorted(zip(job['pulls'], job['order'][1:]))

        def hook(pull):
            while todo and todo[0][0] <= pull:
                nested.append(todo[0][1])
                run(todo.pop(0)[1])
        nested = []
        run(job['order'][0], hook=hook)
        overlap = len(nested)
        for _, i in todo:
            run(i)
    else:
        k = job['threads']
        from java.util.concurrent import CyclicBarrier
        wait = getattr(CyclicBarrier(k), 'await')
        events = []
        errors = []

        def hook(pull):
            if pull % 3 == 0:
                getattr(java.lang.Thread, 'yield')()

        def work(t):
            try:
                wait()
                for i in job['order'][t::k]:
                    events.append((1, i))
                    run(i, hook=hook)
                    events.append((-1, i))
            except (Exception, java.lang.Throwable):
                import traceback
                errors.append(traceback.format_exc())
        ts = [threading.Thread(target=work, args=(t,)) for t in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            return {'error': errors[0]}
        live = 0
        for d, i in events:
            live += d
            overlap += d > 0 and live > 1
    after = agent.settings_state(shared), agent.settings_state(Settings.default()), list(Settings.FILE_UPLOAD_HANDLERS)
    kept = [agent.attempt_snap(c, ['meta', 'data', 'code']) for c in ctxs]
    for i in job['vandals']:
        agent.vandalise(ctxs[i].req)
    kept2 = [agent.attempt_snap(c, ['meta', 'data', 'code']) for i, c in enumerate(ctxs) if i not in job['vandals']]
    again = [do_req(dict(j, use_settings=settings()))['steps'] for j in jobs]
    for c in ctxs:
        try:
            c.req.close()
            for l in c.req.FILES.lists():
                for f in l[1]:
                    getattr(f, 'close', str)()
        except Exception:
            pass
    return {'alone': alone, 'together': results, 'again': again, 'before': enc(list(before)), 'after': enc(list(after)), 'kept': kept, 'kept2': kept2, 'overlap': overlap}


def tree(d):
    out = []
    for root, dirs, fs in os.walk(d):
        r = os.path.relpath(root, d)
        for x in dirs:
            out.append([os.path.normpath(os.path.join(r, x)), None])
        for x in fs:
            p = os.path.join(root, x)
            fh = open(p, 'rb')
            out.append([os.path.normpath(os.path.join(r, x)), enc(fh.read())])
            fh.close()
    return sorted(out)


@register('settings_lab')
def do_settings_lab(job):
    """Settings objects made, changed and used in a scratch directory. {"steps": [...]}"""
    import shutil
    import threading
    import java.lang
    import request_parser
    from request_parser.conf.settings import Settings
    from request_parser.http.request import HttpRequest
    base = os.path.join(agent.BASE, 'lab')
    package = os.path.dirname(os.path.abspath(request_parser.__file__))
    if os.path.isdir(base):
        shutil.rmtree(base)
    os.mkdir(base)

    class SubDict(dict):
        pass

    def path(v):
        how, p = v['path']
        if how == 'sys':
            return str(p)
        p = base + '/' + str(p) if p else base
        if how == 'rel':
            return os.path.relpath(p, package)
        if how == 'slash':
            return p + '/'
        if how == 'dots':
            return os.path.dirname(p) + '/./x/../' + os.path.basename(p)
        return p

    def value(v):
        return path(v) if isinstance(v, dict) and 'path' in v else dec(v)

    def make_dict(items):
        return [(str(k), value(v)) for k, v in items]

    def hide(v):
        if isinstance(v, (str, unicode)):
            return v.replace(base, '$').replace(package, '%')
        return v

    def state(s):
        d = agent.settings_state(s)
        for a in d:
            d[a] = hide(d[a])
        return d
    objs, dicts, out = {}, {}, []
    handlers_before = list(Settings.FILE_UPLOAD_HANDLERS)

    def step(st):
        op = st[0]
        if op == 'make':
            d = dicts[st[1]] = (SubDict if st[3] == 'sub' else dict)(make_dict(st[2]))
            objs[st[1]] = Settings(d)
            return state(objs[st[1]])
        if op == 'default':
            objs[st[1]] = Settings.default()
            return state(objs[st[1]])
        if op == 'share':       # another object from the very same dictionary
            d = dicts[st[1]] = dicts[st[2]]
            objs[st[1]] = Settings(d)
            return state(objs[st[1]])
        if op == 'dictset':
            dicts[st[1]].update(make_dict(st[2]))
            return None
        if op == 'dictclear':
            dicts[st[1]].clear()
            return None
        if op == 'set':
            setattr(objs[st[1]], st[2], value(st[3]))
            return None
        if op == 'states':
            return [[n, state(objs[n])] for n in sorted(objs)]
        if op == 'mkdir':
            os.mkdir(os.path.join(base, st[1]))
            return None
        if op == 'mkfile':
            fh = open(os.path.join(base, st[1]), 'wb')
            fh.write(dec(st[2]))
            fh.close()
            return None
        if op == 'link':
            os.symlink(os.path.join(base, st[2]), os.path.join(base, st[1]))
            return None
        if op == 'tree':
            return tree(base)
        if op == 'race':
            n, rounds = st[1], st[2]
            res = []
            for r in range(rounds):
                d = os.path.join(base, 'race%d' % r)
                if st[3]:
                    os.mkdir(d)
                    fh = open(os.path.join(d, 'kept'), 'wb')
                    fh.close()
                from java.util.concurrent import CyclicBarrier
                wait = getattr(CyclicBarrier(n), 'await')

                def work():
                    wait()
                    try:
                        res.append(hide(Settings({'FILE_UPLOAD_TEMP_DIR': d}).FILE_UPLOAD_TEMP_DIR))
                    except (Exception, java.lang.Throwable) as e:
                        res.append(enc_exc(e) if isinstance(e, Exception) else 'java')
                ts = [threading.Thread(target=work) for _ in range(n)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                left = tree(d)
                res.append(left)
                shutil.rmtree(d)
            return res
        if op == 'request':
            s = objs[st[1]]
            if st[3] is not None:
                s.FILE_UPLOAD_HANDLERS = agent.install_handlers(st[3], log, None)
            stream, src = agent.make_source(st[2])
            r = HttpRequest(stream, s)
            try:
                r.parse_request_header()
                r.parse_request_body()
                res = {'POST': agent.lists(r.POST), 'FILES': agent.files(r.FILES)}
                for _, l in res['FILES']:
                    for f in l:
                        if 'path' in f:
                            f['path'] = hide(f['path'])
            except Exception as e:
                res = enc_exc(e)
            try:
                for l in r.FILES.lists():
                    for f in l[1]:
                        getattr(f, 'close', str)()
                r.close()
            except Exception:
                pass
            return res
        raise ValueError(op)
    log = []
    try:
        for st in job['steps']:
            try:
                out.append(step(st))
            except Exception as e:
                x = enc_exc(e)
                x['msg'] = hide(x['msg'])
                out.append(x)
    finally:
        shutil.rmtree(base)
    return {'steps': out, 'log': log, 'untouched': list(Settings.FILE_UPLOAD_HANDLERS) == handlers_before}


@register('dicts')
def do_dicts(job):
    """A history of operations on several multi-value dictionaries: {"steps": [[op, name, ...]]}; after each operation the content of every
    object is recorded (only where it changed since the step before)."""
    import pickle
    import cPickle
    from request_parser.conf.settings import Settings
    from request_parser.http.request import HttpRequest, QueryDict
    from request_parser.utils.datastructures import MultiValueDict, ImmutableMultiValueDict
    objs, out, last = {}, [], {}
    hold = []       # what was handed out or given: must not be connected to the dictionaries

    def settings(charset=None):
        s = Settings.default()
        if charset:
            s.DEFAULT_CHARSET = charset
        return s

    def new(cls, how, init):
        if cls == 'parsed':
            stream, _ = agent.make_source(init)
            r = HttpRequest(stream, settings())
            r.parse()
            hold.append(r)
            if how == 'GETE':
                r.encoding = 'utf-8'
                return r.GET
            return r.META['REQUEST_HEADERS'] if how == 'H' else getattr(r, how)
        init = dec(init)
        if how == 'fromkeys':
            if cls == 'MVD':
                return MultiValueDict.fromkeys(*init)
            if cls == 'QD':
                return QueryDict.fromkeys(*init, mutable=True)
            return QueryDict.fromkeys(*init)
        if cls in ('QD', 'QDI'):
            return QueryDict(settings(how or None), init, mutable=cls == 'QD')
        c = {'MVD': MultiValueDict, 'IMVD': ImmutableMultiValueDict}[cls]
        if how == 'dict':
            return c(dict(init))
        if how == 'mvd':
            return c(MultiValueDict(init))
        return c([(k, v) for k, v in init])

    def args(st):
        return [dec(x) for x in st]

    def run(st):
        op, name = st[0], st[1]
        if op == 'new':
            objs[name] = new(*st[2:])
            return None
        if op == 'copy':
            o, how = objs[st[2]], st[3]
            if how == 'copy':
                objs[name] = o.copy()
            elif how == 'shallow':
                objs[name] = copy.copy(o)
            elif how == 'deep':
                objs[name] = copy.deepcopy(o)
            elif how.startswith('pickle'):
                objs[name] = cPickle.loads(cPickle.dumps(o, int(how[6:])))
            elif how.startswith('ppickle'):
                objs[name] = pickle.loads(pickle.dumps(o, int(how[7:])))
            return None
        d = objs[name]
        a = args(st[2:])
        if op == 'item':
            return d[a[0]]
        if op == 'setitem':
            d[a[0]] = a[1]
            return None
        if op == 'del':
            del d[a[0]]
            return None
        if op == 'in':
            return [a[0] in d, d.has_key(a[0])]
        if op == 'views':
            items = list(d.items())
            return [len(d), bool(d), list(d), list(d.keys()), [k for k, _ in items], [v for _, v in items], list(d.values()),
                    [[k, list(v)] for k, v in d.lists()], d.dict()]
        if op == 'getlist':
            l = d.getlist(*a)
            r = list(l)
            if l is not None and len(a) < 2:
                l.append('HANDED-OUT')
            return r
        if op == 'setlist':
            if isinstance(a[1], list):
                l = list(a[1])
                r = d.setlist(a[0], l)
                l.append('GIVEN')
                return r
            return d.setlist(*a)
        if op == 'setlistdefault':
            if len(a) > 1:
                l = list(a[1])
                r = list(d.setlistdefault(a[0], l))
                l.append('GIVEN')
                return r
            return list(d.setlistdefault(*a))
        if op == 'update':
            how, what = st[2], st[3]
            if how == 'self':
                return d.update(d)
            if how == 'obj':
                return d.update(objs[what])
            x = dec(what)
            if how == 'kw':
                return d.update(**dict((str(k), v) for k, v in x))
            if how == 'both':
                return d.update(dict(x[0]), **dict((str(k), v) for k, v in x[1]))
            if how == 'mvd':
                m = MultiValueDict(x)
                d.update(m)
                for _, l in m.lists():
                    l.append('GIVEN')
                return None
            return d.update(dict(x))
        if op == 'mutval':
            v = d[a[0]]
            if isinstance(v, dict):
                v['data'] = a[1]
            elif isinstance(v, list) and dict.__getitem__(d, a[0]):
                v.append(a[1])
            return None
        if op == 'eq':
            return [d == objs[st[2]], d != objs[st[2]]]
        if op == 'cycle':
            # a deep copy of a dictionary that is one of its own values
            m = copy.copy(d)
            dict.__setitem__(m, 'me', ['x', m])
            dict.__setitem__(m, 'us', [[m], m])
            c = copy.deepcopy(m)
            me, us = dict.__getitem__(c, 'me'), dict.__getitem__(c, 'us')
            return [c is not m, me[1] is c, us[1] is c, us[0][0] is c, len(c) == len(d) + 2]
        return getattr(d, op)(*a)
    for st in job['steps']:
        try:
            r = enc(run(st))
        except (Exception, java.lang.Exception) as e:
            r = enc_exc(e)
        change = []
        for n in sorted(objs):
            l = agent.lists(objs[n])
            if last.get(n) != l or n not in last:
                change.append([n, l])
                last[n] = l
        out.append([r, change])
    return {'steps': out}


@register('qs')
def do_qs(job):
    """Query dictionaries and pairs, URL-encoded and parsed again."""
    from request_parser.conf.settings import Settings
    from request_parser.http.request import HttpRequest, QueryDict
    from request_parser.utils.datastructures import MultiValueDict
    from request_parser.utils.http import urlencode, limited_parse_qsl
    out = []

    def settings(charset):
        s = Settings.default()
        s.DEFAULT_CHARSET = charset
        return s
    for c in job['calls']:
        try:
            if c['what'] == 'qd':
                enc_ = str(c['encoding'])
                own = settings(str(c['charset']))
                items = [(dec(k), [dec(v) for v in l]) for k, l in c['items']]
                if c['how'] == 'fromkeys':
                    q = QueryDict.fromkeys([k for k, l in items for _ in l], items[0][1][0] if items else '', mutable=bool(c['mutable']), encoding=enc_)
                elif c['how'] == 'assign':
                    q = QueryDict(own, '', mutable=True)
                    q.encoding = enc_
                else:
                    q = QueryDict(own, '', mutable=True, encoding=enc_)
                if c['how'] != 'fromkeys':
                    for k, l in items:
                        if c['how'] == 'append' or len(l) > 1 and c['how'] == 'item':
                            for v in l:
                                q.appendlist(k, v)
                        elif c['how'] == 'item':
                            q[k] = l[0]
                        else:
                            q.setlist(k, l)
                if c.get('copied'):
                    q = q.copy() if c['copied'] == 'copy' else copy.copy(q) if c['copied'] == 'shallow' else copy.deepcopy(q)
                s = q.urlencode(**({} if c['safe'] is None else {'safe': dec(c['safe'])}))
                back = QueryDict(own, s, encoding=enc_)
                again = back.urlencode()
                r = HttpRequest(agent.Source(['GET /?' + str(s) + ' HTTP/1.1\r\nHost: h\r\n\r\n']), settings(enc_))
                r.parse_request_header()
                out.append([enc(s), agent.lists(back), enc(again), agent.lists(r.GET), agent.lists(q)])
            else:
                items = [(dec(k), dec(v)) for k, v in c['items']]
                if c['what'] == 'dict':
                    x = dict(items)
                elif c['what'] == 'mvd':
                    x = MultiValueDict(items)
                elif c['what'] == 'tuples':
                    x = tuple((k, tuple(v) if isinstance(v, list) else v) for k, v in items)
                elif c['what'] == 'gen':
                    x = [(k, iter(v) if isinstance(v, list) else v) for k, v in items]
                else:
                    x = items
                s = urlencode(x, doseq=True) if c['doseq'] else urlencode(x)
                out.append([enc(s), enc(limited_parse_qsl(s, keep_blank_values=True))])
        except (Exception, java.lang.Exception) as e:
            out.append(enc_exc(e))
    return {'steps': out}


@register('lazy')
def do_lazy(job):
    """Operations on a look-back stream: {"data", "cuts", "depth", "ops"}; records result, tell() and pulls after each"""
    from request_parser.utils.datastructures import LazyStream, ChunkIter
    from request_parser.exceptions.exceptions import InputStreamExhausted
    data = dec(job['data'])
    if job.get('chunkiter'):
        c = job['chunkiter']

        class Flo(object):
            pos = 0
            asked = []
            ended = 0

            def read(self, n=-1):
                self.asked.append(n)
                if self.pos >= len(data):
                    self.ended += 1
                    if c['exhaust']:
                        raise InputStreamExhausted()
                    return ''
                k = c['short'][len(self.asked) % len(c['short'])] if c['short'] else n
                r = data[self.pos:self.pos + min(k, n)] if n >= 0 else data[self.pos:]
                self.pos += len(r)
                return r
        flo = Flo()
        it = ChunkIter(flo, c['size']) if c['size'] else ChunkIter(flo)
        out = [enc(x) for x in it]
        more = 0
        for x in it:
            more += 1
        return {'steps': [], 'pieces': out, 'more': more, 'joined_lengths': None, 'asked': sorted(set(flo.asked))}
    src = agent.Source(agent.cut(data, job.get('cuts')))
    s = LazyStream(src)
    for _ in range(job.get('depth', 1) - 1):
        s = LazyStream(s)
    out = []
    for o in job['ops']:
        op, a = o[0], [dec(x) for x in o[1:]]
        try:
            if op == 'next':
                try:
                    r = enc(next(s))
                except StopIteration:
                    r = {'end': True}
            elif op == 'iter':
                r = []
                for x in s:
                    r.append(enc(x))
                    if len(r) >= a[0]:
                        break
            elif op == 'repeat':      # read and put back, over and over
                n = 0
                for n in range(1, a[1] + 1):
                    try:
                        x = s.read(a[0]) if a[0] else next(s)
                    except StopIteration:
                        break
                    s.unget(x)
                r = n
            elif op == 'unget':
                s.unget(a[0])
                r = None
            else:
                r = enc(getattr(s, op)(*a))
        except (Exception, java.lang.Exception) as e:
            r = enc_exc(e)
            if op == 'repeat':
                r['done'] = n
        out.append([r, enc(s.tell()), src.pulls])
    return {'steps': out}


class Own(Exception):
    pass


@register('ilist')
def do_ilist(job):
    """Immutable lists: {"items", "warning": text, None or "exception", "steps"}: result of every step and the content after it"""
    import pickle
    import cPickle
    from request_parser.utils.datastructures import ImmutableList

    items = dec(job['items'])
    w = job['warning']
    given = {'list': items, 'tuple': tuple(items), 'iter': iter(items), 'ilist': ImmutableList(items)}[job['given']]
    kw = {} if w is None else {'warning': Own('own') if w == 'exception' else dec(w)}
    a = ImmutableList(given, **kw)
    objs = [a]
    out = []

    def state(x):
        return [type(x).__name__, enc(list(x)), enc(tuple.__hash__(x) == hash(tuple(items)) if x is a else True)]

    def run(st):
        op = st[0]
        x = objs[st[1] % len(objs)]
        args = [dec(v) for v in st[2:]]
        if op == 'copy':
            y = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle0': lambda v: pickle.loads(pickle.dumps(v, 0)), 'pickle2': lambda v: cPickle.loads(cPickle.dumps(v, 2)),
                 'new': lambda v: ImmutableList(v, warning=v.warning)}[args[0]](x)
            objs.append(y)
            return state(y)
        if op == 'get':
            return x[args[0]]
        if op == 'getslice':
            return list(x[args[0]:args[1]])
        if op == 'getstep':
            return list(x[args[0]:args[1]:args[2]])
        if op == 'len':
            return len(x)
        if op == 'in':
            return args[0] in x
        if op == 'index':
            return x.index(args[0])
        if op == 'count':
            return x.count(args[0])
        if op == 'add':
            return list(x + tuple(args[0]))
        if op == 'mul':
            return list(x * args[0])
        if op == 'eq':
            return [x == tuple(args[0]), x != tuple(args[0])]
        # what must not be possible
        y = x
        if op == 'delitem':
            del y[args[0]]
        elif op == 'delslice':
            del y[args[0]:args[1]]
        elif op == 'delstep':
            del y[args[0]:args[1]:args[2]]
        elif op == 'setitem':
            y[args[0]] = args[1]
        elif op == 'setslice':
            y[args[0]:args[1]] = args[2]
        elif op == 'setstep':
            y[args[0]:args[1]:args[2]] = args[3]
        elif op == 'iadd':
            y += tuple(args[0])
        elif op == 'imul':
            y *= args[0]
        else:
            return getattr(x, op)(*args)
        return 'done'

    for st in job['steps']:
        try:
            r = enc(run(st))
        except (Exception, java.lang.Exception) as e:
            r = enc_exc(e)
        out.append([r, [state(x) for x in objs]])
    return {'steps': out}


@register('modules')
def do_modules(job):
    """A tree of packages made for the job: {"root": name, "tree": [[path, text]], "steps": [[op, args]]}"""
    import shutil
    import importlib
    from request_parser.utils import module_loading as ml
    from request_parser.files.uploadhandler import load_handler
    base = os.path.join(agent.BASE, 'cwd', 'modules')
    root = str(job['root'])
    for p, text in job['tree']:
        p = os.path.join(base, str(p))
        if text is None:
            os.makedirs(p)
            continue
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        fh = open(p, 'wb')
        fh.write(text.encode('latin-1'))
        fh.close()
    sys.path.insert(0, base)
    out = []

    class Fake(object):
        pass
    try:
        for st in job['steps']:
            try:
                op, name = st[0], str(st[1])
                if op == 'import':
                    r = enc(ml.import_string(name))
                elif op == 'handler':
                    h = load_handler(name, *[dec(x) for x in st[2]], **dict((str(k), dec(v)) for k, v in st[3].items()))
                    r = [type(h).__name__, enc(h.seen)]
                elif op == 'assign':
                    m, a = name.rsplit('.', 1)
                    setattr(importlib.import_module(m), a, dec(st[2]))
                    r = None
                elif op == 'add':
                    fh = open(os.path.join(base, str(st[2])), 'wb')
                    fh.write(st[3].encode('latin-1'))
                    fh.close()
                    r = None
                elif op == 'has':
                    m = importlib.import_module(name)
                    before = set(sys.modules)
                    r = [ml.module_has_submodule(m, dec(st[2])), sorted(x for x in set(sys.modules) - before if x.startswith(root) and sys.modules[x] is not None)]
                elif op == 'has fake':
                    f = Fake()
                    if name:
                        f.__name__ = name
                    r = [ml.module_has_submodule(f, dec(st[2])), []]
                elif op == 'dir':
                    r = os.path.relpath(ml.module_dir(importlib.import_module(name)), base)
                elif op == 'dir fake':
                    f = Fake()
                    if st[2] is not None:
                        f.__path__ = [str(x) for x in st[2]]
                    if st[3] != '-':
                        f.__file__ = st[3]
                    r = enc(ml.module_dir(f))
                else:
                    raise ValueError(op)
            except (Exception, java.lang.Exception) as e:
                r = enc_exc(e)
            out.append(r)
    finally:
        sys.path.remove(base)
        for m in list(sys.modules):
            if m == root or m.startswith(root + '.'):
                del sys.modules[m]
        sys.path_importer_cache.clear()
        shutil.rmtree(base)
    return {'steps': out}


class Lazy(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Undecodable(object):
    def __str__(self):
        return '\xff\xfe'.decode('utf-8')

    def __repr__(self):
        return 'Undecodable'


class Text(unicode):
    pass


class Bytes(str):
    pass


@register('texts')
def do_texts(job):
    """Calls of text helpers with objects of all kinds"""
    import datetime
    import decimal
    from request_parser.utils import encoding, http, text
    from request_parser.files.utils import get_abs_path

    def obj(v):
        if not isinstance(v, dict) or 'kind' not in v:
            return dec(v)
        k, a = v['kind'], dec(v.get('v'))
        return {'lazy': lambda: Lazy(a), 'bad': Undecodable, 'text': lambda: Text(a), 'bytes': lambda: Bytes(a), 'decimal': lambda: decimal.Decimal(a), 'date': lambda: datetime.date(2001, 2, 3),
                'datetime': lambda: datetime.datetime(2001, 2, 3, 4, 5, 6), 'time': lambda: datetime.time(4, 5, 6), 'list': lambda: [1], 'dict': dict, 'tuple': lambda: (1, 2), 'exception': lambda: ValueError(a),
                'object': object}[k]()
    out = []
    for st in job['steps']:
        op = st[0]
        try:
            if op in ('force_text', 'force_str'):
                o = obj(st[1])
                v = getattr(encoding, op)(o, **dict((str(k), dec(x)) for k, x in st[2].items()))
                r = [enc(v), v is o, isinstance(v, str), isinstance(v, unicode)]
            elif op == 'protected':
                r = encoding.is_protected_type(obj(st[1]))
            elif op == 'codec':
                r = encoding.is_text_encoding(dec(st[1]))
            elif op == 'entities':
                v = text.unescape_entities(dec(st[1]))
                r = [enc(v), isinstance(v, str)]
            elif op == 'find':
                d = dict((dec(k), 'v') for k in st[1])
                before = sorted(d)
                r = [enc(http.find_header(d, dec(st[2]))), sorted(d) == before]
            elif op == 'path':
                import request_parser
                r = os.path.relpath(get_abs_path(*[dec(x) for x in st[1]]), os.path.realpath(os.path.dirname(request_parser.__file__)))
            elif op == 'error':
                e = encoding.DjangoUnicodeDecodeError(obj(st[1]), *[dec(x) for x in st[2:]])
                r = [enc(str(e)), enc(e.reason), isinstance(e, UnicodeDecodeError), enc(e.start)]
            else:
                raise ValueError(op)
        except (Exception, java.lang.Exception) as e:
            r = enc_exc(e)
            if isinstance(e, UnicodeDecodeError):
                try:
                    r['msg'] = enc(str(e))
                except Exception:
                    r['msg'] = None
        out.append(r)
    return {'steps': out}
