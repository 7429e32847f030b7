"""The driver: generates cases, has agents execute them, judges what was recorded, reports."""
import base64
import hashlib
import importlib
import json
import os
import queue
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RV_REPO', '/repo')
LONG = 1500


# ------------------------------------------------------------------ values
def b(data):
    """bytes for a job"""
    if isinstance(data, str):
        data = data.encode('latin-1')
    if len(data) > 600:
        return {'z': base64.b64encode(zlib.compress(data, 1)).decode()}
    return {'b': data.decode('latin-1')}


def u(text):
    return {'u': text}


class L:
    """a long value of which the agent only reports a digest"""
    __slots__ = ('h', 'n', 'k')

    def __init__(self, h, n, k):
        self.h, self.n, self.k = h, n, k

    def __eq__(self, o):
        return isinstance(o, L) and (self.h, self.n, self.k) == (o.h, o.n, o.k)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.h, self.n))

    def __repr__(self):
        return '<%d %s %s>' % (self.n, {'b': 'bytes', 'a': 'ASCII', 'u': 'characters'}[self.k], self.h[:10])

    def __len__(self):
        return self.n


class Obj:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Obj) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<object %s>' % self.name


class Exc:
    """an exception that the code under test raised"""

    def __init__(self, d):
        self.name = d['exc']
        self.mro = d.get('mro', [])
        self.msg = dec(d.get('msg'))
        self.tb = d.get('tb')

    def isa(self, *names):
        return any(n in self.mro for n in names)

    def __eq__(self, o):
        return isinstance(o, Exc) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '%s(%r)' % (self.name, self.msg)


class Dict(list):
    """a dict as its list of (key, value) pairs, sorted by key; equal to dicts with the same pairs"""


def hashable(x):
    if isinstance(x, (list, tuple)):
        return tuple(hashable(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted(((k, hashable(v)) for k, v in x.items()), key=repr))
    return x


def dec(v):
    """Decode a value of the agent. ASCII text -> str, other bytes -> bytes, other text -> str."""
    if isinstance(v, dict):
        if 'b' in v and len(v) == 1:
            return v['b'].encode('latin-1')
        if 'u' in v and len(v) == 1:
            return v['u']
        if 'h' in v and 'k' in v:
            return L(v['h'], v['n'], v['k'])
        if 'i' in v and len(v) == 1:
            return int(v['i'])
        if 'f' in v and len(v) == 1:
            return float(v['f'])
        if 't' in v and len(v) == 1:
            return tuple(dec(x) for x in v['t'])
        if 's' in v and len(v) == 1:
            return set(hashable(dec(x)) for x in v['s'])
        if 'm' in v and 'c' in v:
            return dict((hashable(dec(k)), dec(x)) for k, x in v['m'])
        if 'o' in v and len(v) == 1:
            return Obj(v['o'])
        if 'exc' in v:
            return Exc(v)
        return dict((k, dec(x)) for k, x in v.items())
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def norm(x):
    """The form in which an expected value comes back from the agent."""
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        ascii_ = all(c < 128 for c in x)
        if len(x) > LONG:
            return L(hashlib.sha1(x).hexdigest(), len(x), 'a' if ascii_ else 'b')
        return x.decode('ascii') if ascii_ else x
    if isinstance(x, str):
        if len(x) > LONG:
            ascii_ = all(ord(c) < 128 for c in x)
            raw = x.encode('utf-8')
            # (the agent counts UTF-16 or code points; long texts are kept within the BMP)
            return L(hashlib.sha1(raw).hexdigest(), len(x), 'a' if ascii_ else 'u')
        return x
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if isinstance(x, dict):
        return dict((hashable(norm(k)), norm(v)) for k, v in x.items())
    return x


def lists_equal(got, want):
    """Compare [[key, [values]]] without regard to the order of keys."""
    if not isinstance(got, list):
        return False
    g = dict((hashable(norm(k)), norm(v)) for k, v in got)
    w = dict((hashable(norm(k)), [norm(x) for x in v]) for k, v in want)
    return len(g) == len(got) and g == w


# ------------------------------------------------------------------ agents
class Died(Exception):
    pass


class TimedOut(Exception):
    pass


class Agent:
    abort = threading.Event()       # nothing more is needed of any agent

    def __init__(self, base):
        self.base = base
        self.p = None
        self.errlog = os.path.join(base, 'stderr')

    def start(self):
        # an agent that was killed may have left files behind
        for d in ('cwd', 'tmp', 'up'):
            shutil.rmtree(os.path.join(self.base, d), ignore_errors=True)
            os.makedirs(os.path.join(self.base, d))
        env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/root',
               'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'JYTHONPATH': '/opt/jylib:' + REPO,
               'TMPDIR': os.path.join(self.base, 'tmp'), 'PYTHONHASHSEED': '0'}
        if os.environ.get('RV_COV'):
            env['RV_COV'] = os.environ['RV_COV']
        self.err = open(self.errlog, 'ab')
        self.p = subprocess.Popen(
            ['java', '-Xmx900m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xshare:auto', '-XX:-UsePerfData', '-Djava.io.tmpdir=' + env['TMPDIR'],
             # as /usr/bin/jython does
             '-jar', '/usr/share/java/jython.jar', '-Dpython.home=/usr', '-Dpython.executable=/usr/bin/jython',
             '-Dpython.console=org.python.util.JLineConsole', '-B', '-s', '-Dpython.cachedir.skip=true', os.path.join(HERE, 'agent.py'), self.base],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
            cwd=os.path.join(self.base, 'cwd'), start_new_session=True)
        self.buf = b''
        r = self._line(240)
        self.where = json.loads(r)['ready']

    def _line(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise TimedOut()
            if self.abort.is_set():
                raise Died()
            if select.select([fd], [], [], min(left, 1))[0]:
                d = os.read(fd, 1 << 20)
                if not d:
                    raise Died()
                self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.stdout.close()
            self.p.wait()
            self.err.close()
            self.p = None

    def run(self, job, timeout):
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps(job).encode('ascii') + b'\n')
        self.p.stdin.flush()
        return json.loads(self._line(timeout))

    def stop(self):
        if self.p is None:
            return
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5 if not os.environ.get('RV_COV') else 60)
        except subprocess.TimeoutExpired:
            pass
        self.kill_quiet()

    def kill_quiet(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.p.stdout.close()
        self.err.close()
        self.p = None


class Case:
    __slots__ = ('job', 'x', 'tags', 'n')

    def __init__(self, job, x=None, tags=(), n=0):
        self.job = job          # what the agent executes
        self.x = x              # what the oracle needs (JSON-able or not)
        self.tags = tags        # features counted in the evidence
        self.n = n


class Problem:
    def __init__(self, what, key=None):
        self.what = what
        self.key = key          # mechanism, matched against the known findings


class Inconclusive(Exception):
    pass


def run_pool(cases, judge, workers, base, timeout, stop_after):
    """Feed the cases to agents; judge() is called in this thread with every result. Returns the inconclusive ones."""
    q = queue.Queue(maxsize=workers * 4)
    results = queue.Queue()
    stop = threading.Event()
    inconclusive = []

    def feeder():
        try:
            for c in cases:
                while not stop.is_set():
                    try:
                        q.put(c, timeout=0.5)
                        break
                    except queue.Full:
                        pass
                if stop.is_set():
                    break
        except BaseException as e:      # a bug of the generator must not look like an empty run
            results.put(('error', None, e))
        for _ in range(workers):
            q.put(None)

    def worker(i):
        a = Agent(os.path.join(base, 'w%d' % i))
        fails = 0
        try:
            while True:
                c = q.get()
                if c is None:
                    break
                if stop.is_set():
                    continue
                try:
                    r = a.run(c.job, timeout)
                except TimedOut:
                    a.kill()
                    r = confirm_hang(a, c)
                except (Died, BrokenPipeError, ValueError) as e:
                    a.kill()
                    fails += 1
                    r = {'inconclusive': 'agent died: %r' % e}
                    if fails < 3:
                        try:
                            r = a.run(c.job, timeout)
                        except (TimedOut, Died, BrokenPipeError, ValueError) as e2:
                            a.kill()
                            r = {'inconclusive': 'agent died twice: %r %s' % (e2, tail(a.errlog))}
                results.put(('result', c, r))
        except BaseException as e:
            results.put(('error', None, e))
        finally:
            a.stop()
            results.put(('end', None, None))

    def confirm_hang(a, c):
        # the machine may be slow: try again with a lot of time, then count steps
        try:
            return a.run(c.job, 180)
        except TimedOut:
            a.kill()
        except (Died, BrokenPipeError, ValueError) as e:
            a.kill()
            return {'inconclusive': 'no answer, and then the agent died: %r' % e}
        job = dict(c.job, budget=min(30000000, 2000000 + 400 * wire_size(c.job)))
        try:
            # (within the budget: it was only slow)
            return a.run(job, 400)
        except (TimedOut, Died, BrokenPipeError, ValueError) as e:
            a.kill()
            return {'inconclusive': 'no answer, and none with a step budget either: %r' % e}

    threading.Thread(target=feeder, daemon=True).start()
    ts = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(workers)]
    for t in ts:
        t.start()
    ended = 0
    error = None
    while ended < workers:
        kind, c, r = results.get()
        if kind == 'end':
            ended += 1
        elif kind == 'error':
            error = error or r
            stop.set()
        elif 'inconclusive' in r and stop.is_set():
            pass
        elif 'inconclusive' in r:
            inconclusive.append((c, r['inconclusive']))
            if len(inconclusive) > 5:
                stop.set()
        elif not stop.is_set() or True:
            if 'error' in r and error is None and from_repo(r['error']):
                # the code under test failed where nothing but the given outcomes is expected
                if judge(c, r) >= stop_after:
                    stop.set()
            elif 'error' in r and error is None:
                error = RuntimeError('harness error in the agent:\n' + r['error'] + '\njob: ' + json.dumps(c.job)[:2000])
                stop.set()
            elif error is None and judge(c, r) >= (1 if r.get('out_of_steps') else stop_after):
                stop.set()
                Agent.abort.set()
    if error is not None:
        raise error
    return inconclusive


def wire_size(job):
    """roughly how many bytes the code under test gets in this job"""
    if isinstance(job, dict):
        if 'z' in job and len(job) == 1:
            return len(zlib.decompress(base64.b64decode(job['z'])))
        if 'rep' in job and len(job) == 1:
            return wire_size(job['rep'][0]) * job['rep'][1]
        n = sum(wire_size(v) for v in job.values())
        return n * (1 + len(job['variants'])) if isinstance(job.get('variants'), list) else n
    if isinstance(job, list):
        return sum(wire_size(v) for v in job)
    return len(job) if isinstance(job, str) else 1


def from_repo(tb):
    frames = re.findall(r'File "([^"]+)"', tb)
    return bool(frames) and os.path.realpath(frames[-1]).startswith(os.path.join(os.path.realpath(REPO), 'request_parser'))


def tail(path, n=600):
    try:
        with open(path, 'rb') as f:
            return f.read()[-n:].decode('utf-8', 'replace')
    except OSError:
        return ''


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """Lines 'known: property=<id> key=<mechanism> <what fails>' of known_findings.txt"""
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


# ------------------------------------------------------------------ a check
class Check:
    id = None
    timeout = 45
    workers = 8
    level = 'exploration'
    rule = ''
    assumptions = []
    # every one of these features has to be observed, or the run is inconclusive
    required = ()
    # share of the cases before which the same bytes are parsed with other settings
    warm = 0

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.rng = random.Random('%s-%d-%s' % (self.id, seed, tier))
        self.features = {}
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.events = 0

    @property
    def scale(self):
        return 1 if self.tier == 'quick' else self.thorough

    thorough = 12

    # -- to be given by the checks
    def cases(self):
        raise NotImplementedError

    def judge(self, case, res):
        """Return a list of Problems (empty: the property held)."""
        raise NotImplementedError

    def nontrivial(self, case, res):
        """A hashable thing that identifies what was observed, or None if the case was trivial."""
        return hashlib.sha1(json.dumps(case.job, sort_keys=True).encode()).hexdigest()

    def seen(self, *features):
        for f in features:
            self.features[f] = self.features.get(f, 0) + 1

    def sample(self, case, res):
        return {'job': shorten(case.job), 'observed': shorten(res.get('steps', res))}


CHARSETS_BEFORE = ['the same', 'the same', 'the same', 'iso-8859-1', 'utf-8', 'koi8-r', 'windows-1252']


def short(data):
    return len(data['b'] if 'b' in data else zlib.decompress(base64.b64decode(data['z']))) < 10000


def all_cases(check):
    """The cases of a check. If it has `warm`, then in some of them the agent parses the same bytes before, with other settings, and
    changes what it was handed out: what is judged must not depend on that."""
    rng = random.Random('warm%s%s' % (check.id, check.seed))
    for c in check.cases():
        j = c.job
        if check.warm and j['op'] == 'req' and rng.random() < check.warm and j.get('src') and short(j['src']['data']) and not j['src'].get('fail'):
            j['warm'] = rng.choice(CHARSETS_BEFORE)
            c.tags = list(c.tags) + ['parsed before with other settings']
        yield c


def shorten(x, depth=0):
    if isinstance(x, str):
        return x if len(x) < 160 else x[:120] + '…(%d)' % len(x)
    if isinstance(x, dict):
        return dict((k, shorten(v, depth + 1)) for k, v in list(x.items())[:30])
    if isinstance(x, list):
        r = [shorten(v, depth + 1) for v in x[:12]]
        return r + ['… %d more' % (len(x) - 12)] if len(x) > 12 else r
    return x


def main(pid, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    sys.path.insert(0, HERE)
    mod = importlib.import_module('checks.' + pid.lower())
    check = mod.CHECK(tier, seed)
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    t0 = time.time()
    base = tempfile.mkdtemp(prefix='rv-%s-' % pid)
    known = known_findings(pid)
    found = {}          # key -> first problem text (known ones)
    bad = []

    def judge(c, r):
        check.evals += 1
        if r.get('out_of_steps'):
            ps = [Problem('did not end within the budget of %s execution steps' % r.get('steps_used'), 'endless')]
        elif 'error' in r:
            ps = [Problem('unexpected failure: ' + r['error'][-1500:], 'failure')]
        else:
            for t in c.tags:
                check.seen(t)
            try:
                ps = check.judge(c, r)
            except Exception:
                # what was observed does not even have the shape of an outcome
                ps = [Problem('the observation cannot be interpreted: ' + traceback.format_exc()[-1200:], 'shape')]
            nt = check.nontrivial(c, r)
            if nt is not None:
                check.distinct.add(nt)
                if len(check.samples) < 3 and (len(check.samples) == 0 or check.evals % 97 == 0):
                    check.samples.append(check.sample(c, r))
        for p in ps:
            if p.key in known:
                found.setdefault(p.key, p.what)
            else:
                bad.append((c, p, r))
        return len(bad)

    try:
        if replay:
            with open(replay) as f:
                rep = json.load(f)
            # cases are generated from the seed; find the one again by its job
            check = mod.CHECK(rep['tier'], rep['seed'])
            want = rep['job']
            cases = [c for c in all_cases(check) if json.loads(json.dumps(c.job)) == want][:1]
            if not cases:
                print('the case is not generated any more')
                return 2
        else:
            cases = all_cases(check)
        workers = 1 if replay else check.workers
        inconclusive = run_pool(cases, judge, workers, base, check.timeout, 25)
        for p in getattr(check, 'finish', lambda: [])():
            bad.append((Case({'op': 'whole-run'}), p, {}))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall = time.time() - t0
    write_evidence(check, pid, tier, seed, wall, bad, found, inconclusive)
    for k in known:
        if k in found:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    if bad:
        c, p, r = min(bad, key=lambda x: len(json.dumps(x[0].job)))
        path = os.path.join(VERIF, 'evidence', '%s-violation.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'what': p.what, 'key': p.key, 'job': c.job,
                       'observed': r, 'others': [x[1].what[:300] for x in bad[:25]],
                       'replay_cmd': 'python3 rv/run.py %s --replay <this file>' % pid}, f, indent=1)
        print('%d violations, e.g. %s' % (len(bad), p.what[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if replay:
        print('no violation')
        return 0
    if inconclusive:
        print('INCONCLUSIVE: %d cases, e.g. %s; %s' % (len(inconclusive), inconclusive[0][1],
                                                      json.dumps(inconclusive[0][0].job)[:1500]))
        return 3
    missing = [f for f in check.required if not check.features.get(f)]
    if missing or not check.distinct:
        print('INCONCLUSIVE: never observed: %s' % (missing or 'anything'))
        return 3
    print('%s: held on %d executions (%d distinct, %.1f s)' % (pid, check.evals, len(check.distinct), wall))
    return 0


def write_evidence(check, pid, tier, seed, wall, bad, found, inconclusive):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': {'evaluations': check.evals, 'distinct_nontrivial': len(check.distinct), 'rule': check.rule,
                       'samples': check.samples, 'observed_features': dict(sorted(check.features.items())),
                       'inconclusive': len(inconclusive), 'known_findings_observed': sorted(found)},
          'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': len(bad)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
