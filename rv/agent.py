# -*- coding: utf-8 -*-
"""
The instrumented side: runs under Jython, imports the real code of request_parser and executes jobs that
the driver sends (one JSON object per line on stdin, one result per line on stdout).

It only uses the public interface of request_parser. Everything that decides anything is on the driver's
side; this side drives, instruments (sources, producers, handlers, directories) and records.
"""
import os
import sys

_out = sys.stdout
sys.stdout = sys.stderr

import hashlib
import json
import time
import types
import java.lang
import zlib
import base64
import threading
import traceback

LONG = 1500


# ---------------------------------------------------------------- values
def dec(v):
    """Decode a JSON value of a job: {"b": latin-1} are bytes, {"z": ...} compressed bytes, {"u": text} unicode,
    {"m": [[k, v], ...]} a dict."""
    if isinstance(v, dict):
        if 'b' in v:
            return v['b'].encode('latin-1')
        if 'z' in v:
            return zlib.decompress(base64.b64decode(v['z']))
        if 'u' in v:
            return v['u']
        if 'm' in v:
            return dict((dec(k), dec(x)) for k, x in v['m'])
        if 't' in v:
            return tuple(dec(x) for x in v['t'])
        if 's' in v:
            return set(dec(x) for x in v['s'])
        if 'q' in v:        # a number and a half
            return v['q'] + 0.5
        if 'f' in v:
            return float(v['f'])
        if 'rep' in v:
            s, n = v['rep']
            return dec(s) * n
        raise ValueError(v)
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, unicode):
        return v.encode('ascii')
    return v


def is_ascii(s):
    try:
        s.encode('ascii') if isinstance(s, unicode) else s.decode('ascii')
        return True
    except UnicodeError:
        return False


def enc(v, depth=0):
    """Encode a value for the driver. ASCII text is the same as bytes or unicode."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, (int, long)):
        return {'i': str(v)} if abs(v) > 2 ** 50 else int(v)
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, (str, unicode)):
        ascii_ = is_ascii(v)
        if len(v) > LONG:
            raw = v.encode('utf-8') if isinstance(v, unicode) else v
            return {'h': hashlib.sha1(raw).hexdigest(), 'n': len(v),
                    'k': 'a' if ascii_ else 'u' if isinstance(v, unicode) else 'b'}
        if ascii_:
            return v.decode('ascii') if isinstance(v, str) else v
        if isinstance(v, unicode):
            return {'u': v}
        return {'b': v.decode('latin-1')}
    if depth > 12:
        return {'o': 'deep'}
    if isinstance(v, dict):
        return {'m': [[enc(k, depth + 1), enc(dict.__getitem__(v, k), depth + 1)] for k in dict.keys(v)],
                'c': type(v).__name__}
    if isinstance(v, tuple):
        return {'t': [enc(x, depth + 1) for x in v]}
    if isinstance(v, (list, types.GeneratorType)):
        return [enc(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return {'s': [enc(x, depth + 1) for x in v]}
    return {'o': type(v).__name__ if type(v).__name__ != 'instance' else v.__class__.__name__}


def exc_name(e):
    return e.__class__.__name__


def enc_exc(e):
    mro = []

    def walk(c):
        mro.append(c.__name__)
        for b in c.__bases__:
            walk(b)
    try:
        walk(e.__class__)
    except AttributeError:
        pass        # a Java class
    try:
        msg = enc(e.args[0]) if getattr(e, 'args', None) and isinstance(e.args[0], (str, unicode, int)) else None
    except Exception:
        msg = None
    return {'exc': exc_name(e), 'mro': mro, 'msg': msg}


# ---------------------------------------------------------------- step budget (decides hangs without a clock)
class OutOfSteps(BaseException):
    pass


class Budget(object):
    def __init__(self, limit):
        self.limit = limit
        self.count = 0
        self.tripped = False

    def trace(self, frame, event, arg):
        self.count += 1
        if self.count > self.limit:
            self.tripped = True
            raise OutOfSteps()
        return self.trace


# ---------------------------------------------------------------- instrumented sources
class SourceError(IOError):
    """the I/O error that a failing source raises"""


class OtherSourceError(Exception):
    """an error of the source that is no I/O error"""


class Source(object):
    """An iterator over the given chunks that counts what it is asked for. fail: index of the chunk at which an
    error is raised (and again on every later pull)."""

    def __init__(self, chunks, fail=None, kind='io', limit=None):
        self.chunks = chunks
        self.pos = 0
        self.pulls = 0
        self.after_end = 0
        self.fail = fail
        self.kind = kind
        self.raised = 0
        self.hook = None        # called with the number of the pull
        self.watch = None       # directory whose files are counted when the error is raised
        self.watched = 0
        self.bytes = 0          # delivered so far

    def __iter__(self):
        return self

    def next(self):
        self.pulls += 1
        if self.hook:
            self.hook(self.pulls)
        if self.fail is not None and self.pos >= self.fail:
            self.raised += 1
            if self.watch:
                self.watched = max(self.watched, len(os.listdir(self.watch)))
            if self.kind == 'io':
                raise SourceError(5, 'injected')
            if self.kind == 'os':
                raise OSError(5, 'injected')
            if self.kind == 'socket':
                import socket
                raise socket.timeout('injected')
            raise OtherSourceError('injected')
        if self.pos >= len(self.chunks):
            self.after_end += 1
            if self.after_end > 200000:
                raise OutOfSteps()
            raise StopIteration()
        c = self.chunks[self.pos]
        self.pos += 1
        self.bytes += len(c)
        return c

    __next__ = next

    def info(self):
        return {'pulls': self.pulls, 'after_end': self.after_end, 'delivered': self.pos,
                'chunks': len(self.chunks), 'bytes': self.bytes, 'raised': self.raised, 'files': self.watched}


def cut(data, spec):
    """Split data: spec is None (one chunk), an int n (chunks of n bytes), or a list of offsets (equal ones make
    empty chunks); 'lines' splits like a file does."""
    if spec is None:
        return [data]
    if spec == 'lines':
        return data.splitlines(True)
    if isinstance(spec, int):
        return [data[i:i + spec] for i in range(0, len(data), spec)]
    out = []
    last = 0
    for c in spec:
        out.append(data[last:c])
        last = c
    out.append(data[last:])
    return out


def make_source(spec):
    if spec is None:
        return None, None
    data = dec(spec['data'])
    if spec.get('tail'):
        data += dec(spec['tail'][0]) * spec['tail'][1]
    if spec.get('io') == 'bytesio':
        from io import BytesIO
        return BytesIO(data), None
    s = Source(cut(data, spec.get('cuts')), spec.get('fail'), spec.get('kind', 'io'))
    return s, s


# ---------------------------------------------------------------- settings and handlers
def make_settings(spec):
    from request_parser.conf.settings import Settings
    if spec is None:
        return Settings.default()
    d = dict((str(k), dec(v)) for k, v in spec.items() if k not in ('HANDLERS',))
    s = Settings(d) if d else Settings.default()
    if spec.get('HANDLERS') is not None:
        s.FILE_UPLOAD_HANDLERS = [str(h) for h in spec['HANDLERS']]
    return s


SETTINGS_ATTRS = ('FILE_UPLOAD_TEMP_DIR', 'MAX_HEADER_SIZE', 'FILE_UPLOAD_MAX_MEMORY_SIZE',
                  'DATA_UPLOAD_MAX_MEMORY_SIZE', 'DATA_UPLOAD_MAX_NUMBER_FIELDS', 'DEFAULT_CHARSET',
                  'FILE_UPLOAD_HANDLERS')


def settings_state(s):
    return dict((a, enc(getattr(s, a, '<missing>'))) for a in SETTINGS_ATTRS)


class TraceObj(object):
    """what a scripted handler returns as its file object"""

    def __init__(self, label, data):
        self.label = label
        self.data = data
        self.name = label
        self.closed = 0

    def close(self):
        self.closed += 1

    def read(self, *a):
        return self.data


def make_handler(spec, log, ix, holder, ctx=None):
    """A handler that records every call and reacts as scripted. spec: {"chunk_size": n, "raw": ..., "files": [reaction
    per file, repeated from the last]}"""
    from request_parser.files import uploadhandler as uh

    class Scripted(uh.FileUploadHandler, object):
        chunk_size = spec.get('chunk_size', 64 * 1024)

        def __init__(self, request=None):
            uh.FileUploadHandler.__init__(self, request)
            self.n = -1
            self.got = []

        def script(self):
            fs = spec.get('files') or [{}]
            return fs[min(self.n, len(fs) - 1)]

        def act(self, what, where):
            a = self.script().get(what)
            if a == 'skip':
                log.append([ix, where + '!', 'SkipFile'])
                raise uh.SkipFile()
            if a == 'stop':
                log.append([ix, where + '!', 'StopUpload'])
                raise uh.StopUpload(connection_reset=False)
            if a == 'reset':
                log.append([ix, where + '!', 'StopUploadReset'])
                raise uh.StopUpload(connection_reset=True)
            if a == 'future':
                log.append([ix, where + '!', 'StopFutureHandlers'])
                raise uh.StopFutureHandlers()
            if a == 'error':
                log.append([ix, where + '!', 'Error'])
                raise OtherSourceError('handler')

        def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
            log.append([ix, 'raw', enc(content_length), enc(boundary), enc(encoding)])
            if spec.get('raw') == 'take':
                data = input_data.read()
                log.append([ix, 'raw_data', enc(data)])
                return holder['take']()
            if spec.get('raw') == 'own':        # takes over without reading anything
                return holder['take']()
            return None

        def new_file(self, field_name, file_name, content_type, content_length, charset=None,
                     content_type_extra=None, transfer_encoding=None):
            self.n += 1
            self.got = []
            uh.FileUploadHandler.new_file(self, field_name, file_name, content_type, content_length, charset,
                                          content_type_extra, transfer_encoding)
            log.append([ix, 'new', enc(field_name), enc(file_name), enc(content_type), enc(content_length),
                        enc(charset), enc(content_type_extra), enc(transfer_encoding)])
            if self.script().get('expose') == 'new':
                self.file = TraceObj('n%d-%d' % (ix, self.n), b'')
            self.act('on_new', 'new')

        def receive_data_chunk(self, raw_data, start):
            log.append([ix, 'chunk', enc(raw_data), enc(start), len(raw_data)])
            if spec.get('pulls'):
                log[-1].append(ctx.src.bytes)
            self.got.append(raw_data)
            s = self.script()
            if s.get('chunk_at') is None or len(self.got) - 1 == s['chunk_at']:
                self.act('on_chunk', 'chunk')
            how = s.get('pass', 'swallow')
            if how == 'swallow':
                return None
            if how == 'same':
                return raw_data
            if how == 'upper':
                return raw_data.upper()
            if how == 'half':
                return raw_data[:len(raw_data) // 2]
            if how == 'double':
                return raw_data + raw_data
            raise ValueError(how)

        def file_complete(self, file_size):
            log.append([ix, 'complete', enc(file_size)])
            self.act('on_complete', 'complete')
            if self.script().get('object', True):
                o = TraceObj('h%d-%d' % (ix, self.n), b''.join(self.got))
                self.file = o if self.script().get('expose') else None
                if self.file is None:
                    del self.file
                return o
            return None

        def upload_complete(self):
            log.append([ix, 'upload_complete'])
            return 'x' if spec.get('uc') else None

    Scripted.__name__ = 'Scripted%d' % ix
    return Scripted


BUILTIN = {'conv': 'request_parser.files.uploadhandler.ConvenientFileUploadHandler',
           'mem': 'request_parser.files.uploadhandler.MemoryFileUploadHandler',
           'temp': 'request_parser.files.uploadhandler.TemporaryFileUploadHandler'}


class SizedMixin(object):
    pass


def install_handlers(specs, log, settings_spec, ctx=None):
    """Make handler classes importable by a dotted path, as settings name them. specs: list of 'conv'/'mem'/'temp',
    {'builtin': .., 'chunk_size': n} or scripted handlers."""
    from request_parser.files import uploadhandler as uh
    from request_parser.utils.datastructures import MultiValueDict
    mod = types.ModuleType('rv_handlers')
    paths = []
    holder = {'take': lambda: (MultiValueDict({'taken': ['over']}), MultiValueDict({'file': [TraceObj('raw', b'')]}))}
    for ix, sp in enumerate(specs):
        if isinstance(sp, (str, unicode)):
            paths.append(BUILTIN.get(sp, str(sp)))
            continue
        if 'builtin' in sp:
            base = getattr(uh, BUILTIN[sp['builtin']].rsplit('.', 1)[1])
            cls = type('B%d' % ix, (base,), {'chunk_size': sp['chunk_size']})
        else:
            cls = make_handler(sp, log, ix, holder, ctx)
        setattr(mod, 'H%d' % ix, cls)
        paths.append('rv_handlers.H%d' % ix)
    sys.modules['rv_handlers'] = mod
    return paths


# ---------------------------------------------------------------- snapshots of a request
def file_info(f):
    d = {'cls': f.__class__.__name__}
    if isinstance(f, TraceObj):
        d['label'] = f.label
        d['data'] = enc(f.data)
        d['closed'] = f.closed
        return d
    for a in ('name', 'size', 'content_type', 'charset', 'content_type_extra', 'transfer_encoding'):
        d[a] = enc(getattr(f, a, '<missing>'))
    try:
        d['closed'] = bool(f.closed)
    except Exception as e:
        d['closed'] = enc_exc(e)
    if d['closed'] is not True:
        try:
            pos = f.tell()
            f.seek(0)
            d['data'] = enc(f.read())
            f.seek(pos)
            d['pos'] = pos
        except Exception as e:
            d['data'] = enc_exc(e)
    if hasattr(f, 'temporary_file_path'):
        p = f.temporary_file_path()
        d['path'] = enc(p)
        d['exists'] = os.path.isfile(p)
        if d['exists']:
            if d['closed'] is not True:
                f.flush()
            d['mode'] = os.stat(p).st_mode & 0o777
            fh = open(p, 'rb')
            d['disk'] = enc(fh.read())
            fh.close()
    if hasattr(f, 'field_name'):
        d['field_name'] = enc(f.field_name)
    return d


def lists(d):
    if d is None:
        return None
    return [[enc(k), [enc(x) for x in v]] for k, v in d.lists()]


def files(d):
    return [[enc(k), [file_info(x) for x in v]] for k, v in d.lists()]


def attempt(f, *a, **k):
    try:
        return enc(f(*a, **k))
    except Exception as e:
        return enc_exc(e)


def snap(r, what):
    d = {}
    if 'meta' in what:
        for a in ('method', 'scheme', 'host', 'port', 'path', 'protocol_info', 'content_type'):
            d[a] = enc(getattr(r, a, '<missing>'))
        d['qs'] = enc(r.META.get('QUERY_STRING', None))
        h = r.META.get('REQUEST_HEADERS', None)
        d['headers'] = lists(h)
        d['headers_cls'] = type(h).__name__
        d['GET'] = lists(r.GET)
        d['encoding'] = enc(r.encoding)
    if 'get' in what:
        for a in ('get_method', 'get_scheme', 'get_host', 'get_port', 'get_path', 'get_protocol_info',
                  'is_secure', 'is_ajax', 'is_plain_text', 'get_full_path', 'get_uri'):
            d[a] = attempt(getattr(r, a))
    if 'uri' in what:
        d['full_raw'] = attempt(r.get_full_path, raw=True)
        d['full_slash'] = attempt(r.get_full_path, force_append_slash=True)
        d['uri_raw'] = attempt(r.get_uri, raw=True)
        d['full'] = attempt(r.get_full_path)
        d['uri'] = attempt(r.get_uri)
    if 'data' in what:
        d['POST'] = lists(r.POST)
        d['FILES'] = files(r.FILES)
        d['POST_cls'] = type(r.POST).__name__
    if 'last' in what:
        d['GETlast'] = [[enc(k), enc(r.GET.get(k)), enc(r.GET.getlist(k))] for k in r.GET]
        d['POSTlast'] = [[enc(k), enc(r.POST.get(k)), enc(r.POST.getlist(k))] for k in r.POST]
    if 'hlast' in what:
        h = r.META.get('REQUEST_HEADERS', {})
        d['hlast'] = [[enc(k), enc(h.get(k)), enc(h[k]), enc(h.getlist(k))] for k in h]
    if 'code' in what:
        # what the values handed out make of their own charset
        for n, q in (('GET', r.GET), ('POST', r.POST)):
            if type(q).__name__ == 'QueryDict':
                d[n + '_charset'] = enc(q.encoding)
                if not any(isinstance(x, dict) for _, l in q.lists() for x in l):
                    d[n + '_coded'] = attempt(lambda: sorted(q.urlencode().split('&')))
    return d


def diag(r):
    """repr() and str() of the request and everything in it"""
    out = []
    things = [('request', r), ('GET', r.GET), ('POST', r.POST), ('FILES', r.FILES), ('META', r.META), ('stream', r.stream)]
    h = r.META.get('REQUEST_HEADERS')
    if h is not None:
        things.append(('headers', h))
    for k, l in r.FILES.lists():
        things += [('file', f) for f in l]
    for name, o in things:
        for how in (repr, str):
            try:
                v = how(o)
                out.append([name, how.__name__, type(v).__name__, enc(v), type(o).__name__, enc(o.name) if name == 'file' else None, enc(o.content_type) if name == 'file' else None])
            except (Exception, java.lang.Exception) as e:
                out.append([name, how.__name__, 'failed', enc_exc(e)])
    return out


class Ctx(object):
    pass


def listing(d):
    out = []
    for root, dirs, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            try:
                out.append([os.path.relpath(p, d), os.path.getsize(p), os.stat(p).st_mode & 0o777])
            except OSError:
                pass
    return sorted(out)


def run_step(c, st):
    r = c.req
    op = st[0]
    if op == 'header':
        return enc(r.parse_request_header())
    if op == 'parse_body':
        return enc(r.parse_request_body())
    if op == 'parse':
        return enc(r.parse())
    if op == 'body':
        return enc(r.body())
    if op == 'read':
        return enc(r.read(*st[1:]))
    if op == 'readline':
        return enc(r.readline(*st[1:]))
    if op == 'iter':
        out = []
        for line in r:
            out.append(enc(line))
            if len(out) >= st[1]:
                break
        return out
    if op == 'readlines':
        return [enc(x) for x in r.readlines()]
    if op == 'xreadlines':
        return [enc(x) for x in r.xreadlines()]
    if op == 'snap':
        return snap(r, st[1])
    if op == 'close':
        return enc(r.close())
    if op == 'ls':
        return [[n, [x for x in listing(d)]] for n, d in c.dirs]
    if op == 'rmup':
        os.rmdir(c.dirs[0][1])
        return None
    if op == 'plant':
        p = os.path.join(c.dirs[0][1], st[1])
        f = open(p, 'wb')
        f.write('planted')
        f.close()
        return None
    if op == 'unplant':
        p = os.path.join(c.dirs[0][1], st[1])
        f = open(p, 'rb')
        v = f.read()
        f.close()
        os.unlink(p)
        return enc(v)
    if op == 'stream':
        s, src = make_source(st[1])
        c.src = src
        r.stream = s
        return None
    if op == 'body_stream':
        s, src = make_source(st[1])
        c.src = src
        r.body_stream = s
        return None
    if op == 'set':
        setattr(r, st[1], dec(st[2]))
        return None
    if op == 'set_handlers':
        # handler objects given to the request itself
        from request_parser.files.uploadhandler import load_handler
        r.upload_handlers = [load_handler(p, r) for p in install_handlers(st[1], c.log, None)]
        return None
    if op == 'call':
        return enc(getattr(r, st[1])(*[dec(x) for x in st[2]], **dict((str(k), dec(v)) for k, v in (st[3] if len(st) > 3 else {}).items())))
    if op == 'diag':
        return diag(r)
    if op == 'rename':
        fs = [f for _, l in r.FILES.lists() for f in l]
        if fs:
            fs[0].name = dec(st[1])
        return len(fs)
    if op == 'src':
        return c.src.info() if c.src else None
    if op == 'mutate':
        vandalise(r)
        return None
    if op == 'unlink':
        n = 0
        for _, l in r.FILES.lists():
            for f in l:
                if hasattr(f, 'temporary_file_path'):
                    os.unlink(f.temporary_file_path())
                    n += 1
        return n
    if op == 'fileops':
        f = r.FILES.getlist(dec(st[1]))[st[2]]
        return [file_op(f, o) for o in st[3]]
    if op == 'settings':
        return settings_state(c.settings)
    if op == 'immut':
        out = []
        for name in ('GET', 'POST', 'H'):
            d = r.META['REQUEST_HEADERS'] if name == 'H' else getattr(r, name)
            out.append([name, bool(d), lists(d), [[o, try_mutate(d, o)] for o in MUTATORS], lists(d)])
        return out
    raise ValueError(op)


def vandalise(r):
    """change everything that the request handed out and that can be changed"""
    for _, l in r.POST.lists():
        for v in l:
            if isinstance(v, dict):
                v['data'] = 'CHANGED'
                if isinstance(v.get('content-type-extra'), dict):
                    v['content-type-extra']['changed'] = 'CHANGED'
        l.append('CHANGED')
    for d in (r.GET, r.FILES, r.META.get('REQUEST_HEADERS') or {}):
        for _, l in getattr(d, 'lists', list)():
            for v in l:
                if isinstance(getattr(v, 'content_type_extra', None), dict):
                    v.content_type_extra['changed'] = 'CHANGED'
            l.append('CHANGED')
    for d in (r.GET, r.POST, r.FILES, r.META):
        try:
            d['changed'] = 'CHANGED'
        except AttributeError:
            pass
    try:
        r.upload_handlers.append(None)
    except Exception:
        pass
    r.method = r.path = r.host = 'CHANGED'


MUTATORS = ('setitem', 'delitem', 'setlist', 'setlistdefault', 'setlistdefault_new', 'setdefault', 'setdefault_new', 'appendlist', 'update',
            'update_kw', 'pop', 'pop_default', 'popitem', 'clear')


def try_mutate(d, how):
    keys = list(d)
    k = keys[0] if keys else 'k'
    try:
        if how == 'setitem':
            d[k] = 'x'
        elif how == 'delitem':
            del d[k]
        elif how == 'setlist':
            d.setlist(k, ['x'])
        elif how == 'setlistdefault':
            d.setlistdefault(k, ['x']).append('y')
        elif how == 'setlistdefault_new':
            d.setlistdefault('new-key', ['x'])
        elif how == 'setdefault':
            d.setdefault(k, 'x')
        elif how == 'setdefault_new':
            d.setdefault('new-key', 'x')
        elif how == 'appendlist':
            d.appendlist(k, 'x')
        elif how == 'update':
            d.update({k: 'x'})
        elif how == 'update_kw':
            d.update(newkw='x')
        elif how == 'pop':
            d.pop(k)
        elif how == 'pop_default':
            d.pop(k, None)
        elif how == 'popitem':
            d.popitem()
        elif how == 'clear':
            d.clear()
        else:
            raise ValueError(how)
        return 'done'
    except Exception as e:
        return enc_exc(e)


def file_op(f, o):
    try:
        op = o[0]
        if op in ('read', 'seek', 'tell', 'readline', 'flush', 'write', 'truncate', 'readable', 'writable', 'seekable'):
            return enc(getattr(f, op)(*[dec(x) for x in o[1:]]))
        if op == 'readlines':
            return [enc(x) for x in f.readlines()]
        if op == 'readinto':
            return None
        if op == 'chunks':
            return [enc(x) for x in (f.chunks(o[1]) if o[1] else f.chunks())]
        if op == 'lines':
            return [enc(x) for x in f]
        if op == 'multiple':
            return f.multiple_chunks(o[1]) if o[1] else f.multiple_chunks()
        if op == 'size':
            return enc(f.size)
        if op == 'len':
            return len(f)
        if op == 'bool':
            return bool(f)
        if op == 'name':
            return enc(f.name)
        if op == 'attrs':
            return [enc(getattr(f, a)) for a in o[1]]
        if op == 'str':
            return enc(str(f))
        if op == 'repr':
            return enc(repr(f))
        if op == 'chunksize':
            f.DEFAULT_CHUNK_SIZE = o[1]
            return None
        if op == 'setname':
            f.name = dec(o[1])
            return enc(f.name)
        if op == 'closed':
            return bool(f.closed)
        if op == 'close':
            f.close()
            return None
        if op == 'open':
            g = f.open(*[dec(x) for x in o[1:]])
            return g is f
        if op == 'with':
            f.__enter__()
            f.__exit__(None, None, None)
            return None
        raise ValueError(op)
    except Exception as e:
        return enc_exc(e)


def do_req(job, c=None):
    from request_parser.http.request import HttpRequest
    c = c or Ctx()
    c.log = []
    if job.get('warm'):
        warm(job)
    c.dirs = job_dirs(job)
    spec = job.get('settings')
    if spec is not None:
        spec = dict(spec)
    else:
        spec = {}
    if job.get('updir'):
        spec['FILE_UPLOAD_TEMP_DIR'] = os.path.join(BASE, job['updir'])
    if job.get('handlers') is not None:
        spec['HANDLERS'] = install_handlers(job['handlers'], c.log, spec, c)
    if 'use_settings' in job:
        c.settings = job['use_settings']
    else:
        c.settings = make_settings(spec)
    stream, c.src = make_source(job.get('src'))
    if c.src is not None and job.get('hook'):
        c.src.hook = job['hook']
    if c.src is not None and job.get('updir'):
        c.src.watch = os.path.join(BASE, job['updir'])
    c.req = HttpRequest(stream, c.settings) if job.get('src') is not None else HttpRequest(None, c.settings)
    out = []
    for st in job['steps']:
        try:
            out.append(run_step(c, st))
        except (Exception, java.lang.Exception, java.lang.StackOverflowError) as e:
            x = enc_exc(e)
            if job.get('tb') or x['exc'] in ('AttributeError', 'TypeError', 'NameError'):
                x['tb'] = traceback.format_exc()[-1200:]
            out.append(x)
    if job.get('autoclose', True):
        # not part of what is judged: leave nothing behind for the next job
        for k in ('_files',):
            try:
                c.req.close()
            except Exception:
                pass
    return {'steps': out, 'log': c.log}


def warm(job):
    """The same bytes before, with other settings, and then change what was handed out"""
    spec = dict(job.get('settings') or {}, DATA_UPLOAD_MAX_FIELDS=None, DATA_UPLOAD_MAX_MEMORY=None)
    if job['warm'] != 'the same':
        spec['DEFAULT_CHARSET'] = job['warm']
    w = Ctx()
    do_req({'src': {'data': job['src']['data']}, 'settings': spec, 'steps': [['parse'], ['snap', ['meta', 'get', 'data']]], 'updir': 'before', 'autoclose': False}, w)
    for f in (lambda: vandalise(w.req), lambda: w.req.close()):
        try:
            f()
        except Exception:
            pass


def job_dirs(job):
    out = []
    if job.get('updir'):
        d = os.path.join(BASE, job['updir'])
        if not os.path.isdir(d):
            os.makedirs(d)
        out.append(['up', d])
    out.append(['cwd', os.path.join(BASE, 'cwd')])
    out.append(['tmp', os.path.join(BASE, 'tmp')])
    return out


# ---------------------------------------------------------------- several requests, one after another or in threads
def do_multi(job):
    """job: {"jobs": [...], "shared": settings spec or None, "threads": n, "rounds": k}"""
    shared = make_settings(dict(job['shared'], FILE_UPLOAD_TEMP_DIR=os.path.join(BASE, job['updir']))
                           if job.get('updir') else job['shared']) if job.get('shared') is not None else None
    if job.get('updir'):
        job_dirs(job)
    before = settings_state(shared) if shared is not None else None
    jobs = job['jobs']
    if shared is not None:
        for j in jobs:
            if not j.get('own'):
                j['use_settings'] = shared
    n = job.get('threads', 0)
    results = [None] * len(jobs)
    if not n:
        ctxs = []
        for i, j in enumerate(jobs):
            c = Ctx()
            ctxs.append(c)
            results[i] = do_req(dict(j, autoclose=False), c)
        # what earlier requests reported has not changed since
        again = [attempt_snap(c, ['meta', 'data']) for c in ctxs]
        for c in ctxs:
            try:
                c.req.close()
            except Exception:
                pass
    else:
        import java.util.concurrent as juc
        again = None
        barrier = juc.CyclicBarrier(n)
        errors = []
        starts = []

        def work(t):
            try:
                barrier.await()
                for i in range(t, len(jobs), n):
                    starts.append((i, 's', time.time()))
                    results[i] = do_req(jobs[i])
                    starts.append((i, 'e', time.time()))
            except Exception:
                errors.append(traceback.format_exc())
        ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            return {'error': errors[0]}
        overlap = 0
        live = 0
        for i, k, t in sorted(starts, key=lambda x: x[2]):
            live += 1 if k == 's' else -1
            overlap += 1 if k == 's' and live > 1 else 0
        return {'results': results, 'before': before, 'overlap': overlap,
                'after': settings_state(shared) if shared is not None else None}
    return {'results': results, 'before': before, 'again': again,
            'after': settings_state(shared) if shared is not None else None}


def attempt_snap(c, what):
    try:
        return snap(c.req, what)
    except Exception as e:
        return enc_exc(e)


# ---------------------------------------------------------------- plain functions
def do_call(job):
    """job: {"calls": [[function, args, kwargs], ...]}: functions by dotted path"""
    from request_parser.utils.module_loading import import_string  # noqa (also imports the package)
    import importlib
    out = []
    for fn, args, kw in job['calls']:
        mod, name = fn.rsplit('.', 1)
        f = getattr(importlib.import_module(mod), name)
        a = [dec(x) for x in args]
        k = dict((str(x), dec(y)) for x, y in kw.items())
        try:
            v = f(*a, **k)
            out.append({'v': enc(v)})
        except (Exception, java.lang.Exception, java.lang.StackOverflowError) as e:
            out.append(enc_exc(e))
    return {'steps': out}


OPS = {'req': do_req, 'multi': do_multi, 'call': do_call}


def register(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


BASE = None


class Coverage(object):
    """Which lines of request_parser ran (only for the author of the checks: RV_COV names a directory)."""
    def __init__(self, directory):
        self.name = os.path.join(directory, '%s-%d' % (os.path.basename(BASE), int(time.time() * 1000)))
        self.lines = {}

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if 'request_parser' not in f:
            return None
        self.lines[f.rsplit('request_parser/', 1)[-1], frame.f_lineno] = 1
        return self.trace

    def write(self):
        with open(self.name, 'w') as out:
            for f, n in sorted(self.lines):
                out.write('%s %d\n' % (f, n))


def main():
    global BASE, LONG
    BASE = sys.argv[1]
    os.chdir(os.path.join(BASE, 'cwd'))
    # the other operations live in their own file
    here = os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else sys.path[0]
    sys.path.insert(0, here)
    sys.modules['agent'] = sys.modules['__main__']
    cov = Coverage(os.environ['RV_COV']) if os.environ.get('RV_COV') else None
    if cov:
        sys.settrace(cov.trace)
        threading.settrace(cov.trace)
    import agent_ops  # noqa
    import request_parser.http.request
    _out.write(json.dumps({'ready': request_parser.http.request.__file__}) + '\n')
    _out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        job = json.loads(line)
        t0 = time.time()
        LONG = sys.maxint if job.get('whole') else 1500
        budget = Budget(job['budget']) if job.get('budget') else None
        try:
            if budget and not cov:
                sys.settrace(budget.trace)
            try:
                res = OPS[job['op']](job)
            finally:
                if budget:
                    sys.settrace(cov.trace if cov else None)
        except OutOfSteps:
            res = {'out_of_steps': True}
        except (Exception, java.lang.Throwable):
            res = {'error': traceback.format_exc()}
        if budget:
            res['steps_used'] = budget.count
            if budget.tripped:
                res['out_of_steps'] = True
        res['dt'] = time.time() - t0
        try:
            s = json.dumps(res)
        except Exception:
            s = json.dumps({'error': 'unserialisable: ' + traceback.format_exc()})
        _out.write(s + '\n')
        _out.flush()
    if cov:
        sys.settrace(None)
        cov.write()


if __name__ == '__main__':
    main()
