"""Generators. Every generated thing comes with what it was made of, so that no expectation needs a parser."""
import string

LETTERS = string.ascii_letters
TOKEN = LETTERS + string.digits + "!#$%&'*+-.^_`|~"
PATHCH = LETTERS + string.digits + "-._~!$&'()*+,;=:@/"
ODDCH = '"<>\\^`{|}[]%'


def pick(rng, weighted):
    """[(weight, value), ...]"""
    total = sum(w for w, _ in weighted)
    r = rng.random() * total
    for w, v in weighted:
        r -= w
        if r < 0:
            return v
    return weighted[-1][1]


def word(rng, alphabet, lo, hi):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def size_near(rng, points, spread=3, lo=0):
    return max(lo, rng.choice(points) + rng.randint(-spread, spread))


def large(rng, lo, hi):
    """a number far above the ordinary, often near the upper end"""
    return rng.randint(hi * 9 // 10, hi) if rng.random() < 0.4 else int(lo * (hi / lo) ** rng.random())


def text_of(rng, alphabet, n):
    return ''.join(rng.choices(alphabet, k=n))


def cuts(rng, n, hot=()):
    """A way to split n bytes into chunks: None, a chunk size, or offsets (biased to the hot ones)."""
    k = rng.random()
    if k < 0.12:
        return None
    if k < 0.22 and n < 3000:
        return 1
    if k < 0.42:
        return max(n // 2000, rng.choice([2, 3, 5, 7, 13, 15, 16, 17, 31, 64, 100, 512, 1000, 1024]))
    if k < 0.5:
        return 'lines'
    out = []
    for h in hot:
        if rng.random() < 0.6:
            out.append(h + rng.randint(-2, 2))
    for _ in range(rng.randint(0, 6)):
        out.append(rng.randint(0, n))
    if rng.random() < 0.15 and out:
        out += [rng.choice(out)] * rng.randint(1, 2)      # empty chunks
    return sorted(min(max(0, c), n) for c in out)


# ------------------------------------------------------------------ request heads
def pct(rng):
    return pick(rng, [(5, '%%%02x' % rng.randint(0, 255)), (5, '%%%02X' % rng.randint(0, 255)), (1, '%'), (1, '%zz'),
                      (1, '%4'), (2, '%C3%A9'), (1, '%E2%98%83'), (1, '%25')])


def url_text(rng, lo, hi, extra='', odd=0.08, no=''):
    out = []
    for _ in range(rng.randint(lo, hi)):
        k = rng.random()
        if k < odd:
            out.append(rng.choice(ODDCH))
        elif k < odd + 0.1:
            out.append(pct(rng))
        else:
            out.append(rng.choice(PATHCH + extra))
    s = ''.join(out)
    for c in no:
        s = s.replace(c, '')
    return s


def fix_path(p):
    """the path does not end in a segment whose first ';' is its last character (see H01)"""
    seg = p[p.rfind('/') + 1:]
    if seg.find(';') == len(seg) - 1 and seg.endswith(';'):
        p += 'x'
    return p


def gen_path(rng):
    p = pick(rng, [
        (2, '/'), (3, lambda: '/' + url_text(rng, 0, 12)), (1, lambda: '/a;' + url_text(rng, 1, 6)),
        (1, lambda: '/x;p=1/y;q=' + url_text(rng, 1, 4)), (1, lambda: '/' + '/'.join(url_text(rng, 0, 4) for _ in range(4))),
        (1, '/index.html'), (1, lambda: '/a:b@c'), (1, lambda: '/' + url_text(rng, 30, 80)), (1, '/http://a.com/'),
        (1, lambda: '/' + url_text(rng, 0, 3) + '/../..' ), (1, '/.'), (1, '/%2F%2e%2E')])
    p = p() if callable(p) else p
    p = p.replace('?', '').replace('#', '')
    while p.startswith('//'):
        p = p[1:]
    return fix_path(p)


def gen_query(rng):
    q = pick(rng, [
        (3, lambda: '&'.join('%s=%s' % (word(rng, LETTERS, 1, 4), url_text(rng, 0, 5)) for _ in range(rng.randint(1, 5)))),
        (1, lambda: url_text(rng, 1, 15, extra='?&=;/+')), (1, '?'), (1, 'a=b?c=d'), (1, 'u=http://x.y/z?k=v'),
        (1, ''), (1, '='), (1, '&;&')])
    q = q() if callable(q) else q
    return q.replace('#', '')


HOSTS = ['a.com', 'example.com', 'EXAMPLE.Com', 'localhost', '127.0.0.1', '[::1]', '[2001:db8::7]', '[::ffff:1.2.3.4]',
         'a-b.c-d.org', 'sub.Domain.example.co.uk', 'x', '1', 'a.com.', 'a..b', '-', 'xn--caf-dma.com', '[FE80::A]']
BADHOSTS = ['a b.com', 'a_b.com', 'a.com:', 'a.com:x', ':80', '', '[::1', '::1]', '[::1]x', '[g::1]', 'a.com/b', 'user@a.com', 'a.com:80:90',
            'a.com:-1', 'a.com#', 'a.com?', 'a,b', '*', '[]', '[]:80', 'a.com, b.com', '<script>', "a'b", 'a.com:80x',
            '[1.2.3.4]', '[::1]:', '[::1]:8x', '[:]', 'a.com\x00', 'a.com\\b', '%41.com', '[::1%25eth0]', 'a.com@b.com:80',
            ' ', 'a.com:80 ', '(a)', 'a.com;b', '"a.com"', 'a.com\n', 'a.com:80\n', '[::1]\n', '\na.com', '[::1]:443\n']


def valid_host(s):
    """host or host:port, as a hand-written recogniser"""
    s = s.lower()
    rest = s
    if s.startswith('['):
        end = s.find(']')
        if end < 0:
            return False
        inner, rest = s[1:end], s[end + 1:]
        if ':' not in inner:
            return False
        head, tailpart = inner.split(':', 1)
        if any(c not in '0123456789abcdef' for c in head):
            return False
        if not tailpart or any(c not in '0123456789abcdef:.' for c in tailpart):
            return False
        # at least one character between the first colon and the bracket; it may be a colon
    else:
        n = 0
        while n < len(s) and s[n] in 'abcdefghijklmnopqrstuvwxyz0123456789.-':
            n += 1
        if n == 0:
            return False
        rest = s[n:]
    if not rest:
        return True
    return rest[0] == ':' and len(rest) > 1 and all(c in '0123456789' for c in rest[1:])


def host_parts(s):
    """(host, explicit port or None) of a valid host[:port]"""
    s = s.lower()
    if s.endswith(']'):
        return s, None
    if ':' in s:
        h, p = s.rsplit(':', 1)
    else:
        h, p = s, None
    if h.endswith('.'):
        h = h[:-1]
    return h, p


def odd_host(rng):
    """a valid but unusual host"""
    if rng.random() < 0.3:
        h = '[' + word(rng, '0af', 0, 4) + ':' + (word(rng, '0f9:.', 1, 8)) + ']'
    else:
        h = word(rng, 'abZ019.-', 1, 9) + rng.choice(['', '', '.', '..', '...', '-'])
    return h + rng.choice(['', '', ':%d' % rng.randint(0, 99999), ':' + '0' * rng.randint(1, 3) + '8'])


def case_mix(rng, s):
    return pick(rng, [(4, s), (1, s.lower()), (1, s.upper()), (1, ''.join(rng.choice([c.lower(), c.upper()]) for c in s))])


def gen_value(rng, hi=20):
    k = rng.random()
    if k < 0.5:
        return word(rng, TOKEN, 1, hi)
    if k < 0.6:
        return rng.choice(['a: b: c', 'a="x;y", b', '', ':', '::', 'text/html; q=0.9, */*;q=0.1', 'GET / HTTP/1.1', 'a\nb', 'Host: evil',
                           '{"a": [1, 2]}', '"', '=', 'a,b,,c', 'x' * 300, '\x00\x01', 'a\tb', '%0d%0a', 'a\rb', 'http://a.com/?x=1#y'])
    s = word(rng, ''.join(chr(c) for c in range(32, 127)), 1, hi)
    return s.strip() or 'v'


HNAMES = ['Accept', 'Cookie', 'Cookies', 'X-A', 'x-a', 'X-B', 'User-Agent', 'Referer', 'Via', 'X-Forwarded-Host', 'Origin',
          'X-HTTP-Method-Override', 'Forwarded', 'If-None-Match', 'HostX', 'X-Host', 'Transfer-Encoding',
          'X-A ', 'Via\t', ' X-B', 'X A']


def gen_head(rng, **o):
    """Returns (head bytes with the final empty line, model). o: targets, hosts, ctype (None: random or absent), lead headers."""
    m = {}
    m['method'] = pick(rng, [(4, 'GET'), (4, 'POST'), (1, 'PUT'), (1, 'get'), (1, 'M-SEARCH'), (1, 'OPTIONS'),
                             (1, lambda: word(rng, TOKEN, 1, 10)), (1, 'HEAD'), (1, 'DELETE'), (1, 'CONNECT'), (1, '{}%s"')])
    if callable(m['method']):
        m['method'] = m['method']()
    if 'method' in o:
        m['method'] = o['method']
    # one thing in it that is much larger than usual
    m['large'] = large_ = rng.choice(['method', 'path', 'path', 'query', 'query', 'value', 'value', 'name', 'fields', 'fields', 'repeated', 'host', 'host', 'fragment', 'proto']) if rng.random() < o.get('large', 0.04) else None
    if large_ == 'method' and 'method' not in o:
        m['method'] = text_of(rng, TOKEN, large(rng, 11, 500))
    m['proto'] = pick(rng, [(6, 'HTTP/1.1'), (2, 'HTTP/1.0'), (1, 'HTTP/2'), (1, 'http/1.1'), (1, lambda: word(rng, TOKEN + '/', 1, 9))])
    if callable(m['proto']):
        m['proto'] = m['proto']()
    if large_ == 'proto':
        m['proto'] = text_of(rng, TOKEN + '/', large(rng, 10, 300))
    form = o.get('form') or pick(rng, [(6, 'origin'), (3, 'absolute'), (1, 'star')])
    m['form'] = form
    hostval = lambda: pick(rng, [(6, rng.choice(HOSTS)), (o.get('odd', 0.5), odd_host(rng)), (2, rng.choice(HOSTS) + ':' + rng.choice(['80', '443', '8080', '0', '65535', '65536', '99999', '00080'])),
                                 (o.get('bad', 0.0), rng.choice(BADHOSTS)),
                                 (o.get('bad', 0.0), word(rng, 'ab.-:[]019_ @%A', 1, 8).strip() or 'a')])
    if large_ == 'host':
        n = large(rng, 10, 1000)
        lh = text_of(rng, 'abZ019-', n) if rng.random() < 0.4 else '.'.join(text_of(rng, 'abZ019-', rng.randint(1, 70)) for _ in range(n // 36 + 2))
        lh += rng.choice(['', '.', ':8080', ':' + '0' * rng.randint(1, 40) + '8'])
        hostval = lambda: lh
    q = o['query'] if 'query' in o else (gen_query(rng) if rng.random() < 0.6 else None)
    if large_ == 'query' and 'query' not in o:
        n = large(rng, 200, o.get('large_hi', 100000))
        q = text_of(rng, PATHCH.replace(';', '').replace('&', '') + '?/%', n) if rng.random() < 0.4 else '&'.join('%s=%s' % (text_of(rng, LETTERS, rng.randint(1, 4)), text_of(rng, PATHCH, n // 150)) for _ in range(150)).replace(';', ',')
    frag = url_text(rng, 0, 6, extra='?#/') if rng.random() < 0.25 else None
    if form == 'star':
        path, q, frag = '*', None, None
        m['authority'] = None
        m['scheme'] = ''
        target = '*'
    else:
        path = gen_path(rng)
        if large_ == 'path':
            path = fix_path('/a' + text_of(rng, PATHCH + '%', large(rng, 80, o.get('large_hi', 100000))))
        if large_ == 'fragment':
            frag = text_of(rng, PATHCH + '?#%', large(rng, 80, 5000))
        if form == 'absolute':
            scheme = pick(rng, [(4, 'http'), (4, 'https'), (1, 'HTTP'), (1, 'Https'), (1, 'ftp'), (1, 'ws'), (1, 'a+b-c.d1'), (1, 'urn'), (0.5, 'https+x'), (0.5, 'httpsx'), (0.5, 'httpx'), (0.5, 'http.s'), (0.5, 'xhttps'), (0.5, 'h'), (0.2, 's' * 300)])
            auth = hostval()
            for c in '/?# ':
                auth = auth.replace(c, '')
            if ('[' in auth) != (']' in auth):
                auth = auth.replace('[', '').replace(']', '')
            auth = auth or 'a.com'
            if rng.random() < 0.2:
                path = ''
            m['authority'] = auth
            m['scheme'] = scheme
            target = scheme + '://' + auth + path
        else:
            m['authority'] = None
            m['scheme'] = ''
            target = path
        if q is not None:
            target += '?' + q
        if frag is not None:
            target += '#' + frag
    m['path'], m['qs'], m['fragment'], m['target'] = path, q or '', frag, target
    # header fields
    hs = []
    for _ in range(rng.randint(0, o.get('fields', 6))):
        n = rng.choice(HNAMES) if rng.random() < 0.8 else word(rng, TOKEN.replace(':', ''), 1, 12)
        if n.lower() in ('host', 'content-type', 'content-length', 'x-requested-with'):
            continue
        hs.append((n, gen_value(rng)))
    if large_ == 'value':
        hs.insert(rng.randint(0, len(hs)), (rng.choice(HNAMES), 'v' + text_of(rng, ''.join(chr(c) for c in range(32, 127)), large(rng, 300, 100000)) + 'w'))
    elif large_ == 'name':
        hs.insert(rng.randint(0, len(hs)), ('X' + text_of(rng, TOKEN.replace(':', ''), large(rng, 40, 5000)), gen_value(rng)))
    elif large_ in ('fields', 'repeated'):
        for i in range(large(rng, 20, 1500)):
            hs.insert(rng.randint(0, len(hs)), ('X-%s%d' % (text_of(rng, LETTERS, 2), i) if large_ == 'fields' else rng.choice(['X-A', 'X-A', 'X-A', 'Via']), gen_value(rng, 8)))
    # Host
    hostname = case_mix(rng, 'Host')
    nhost = o.get('nhost', pick(rng, [(6, 1), (1, 2), (1, 3), (0.6, 0)]))
    if nhost == 0 and m['authority'] is None and not o.get('allow_nohost'):
        nhost = 1
    names = [hostname] * nhost
    m['spellings'] = nhost > 1 and rng.random() < 0.4
    if m['spellings']:
        # several spellings; the one of the name itself is preferred
        names = [case_mix(rng, 'Host') if rng.random() < 0.6 else 'Host' for _ in names]
        hostname = names[rng.randrange(nhost)] = 'Host'
    vals = []
    for n in names:
        v = hostval()
        hs.insert(rng.randint(0, len(hs)), (n, None))
        vals.append(v)
    it = iter(vals)
    hs = [(n, next(it) if v is None else v) for n, v in hs]
    hostvals = [v for n, v in hs if n == hostname]
    m['nhost'], m['hostvals'] = nhost, hostvals
    m['ctype'] = None
    ct = o['ctype'] if 'ctype' in o else pick(rng, [
        (4, None), (2, 'text/plain'), (1, 'Text/PLAIN; charset=utf-8'), (1, 'application/json'), (1, 'text/html;charset="latin-1"'), (1, 'a/b; x=y;z'),
        (1, ''), (1, 'TEXT/Plain ;x'), (1, 'text/plain2'), (1, '; charset=utf-8')])
    if ct is not None:
        ctn = case_mix(rng, 'Content-Type')
        if rng.random() < 0.15 and o.get('dup_ctype', True):
            hs.insert(rng.randint(0, len(hs)), (ctn, 'application/x-decoy'))
            at = 1 + max(i for i, h in enumerate(hs) if h[0] == ctn)
            hs.insert(rng.randint(at, len(hs)), (ctn, ct))
        else:
            hs.insert(rng.randint(0, len(hs)), (ctn, ct))
        m['ctype'] = ct.strip()
    m['ajax'] = False
    if o.get('ajax', rng.random() < 0.25):
        v = pick(rng, [(3, 'XMLHttpRequest'), (1, 'xmlhttprequest'), (1, 'XMLHttpRequest2'), (1, '')])
        an = case_mix(rng, 'X-Requested-With')
        for _ in range(pick(rng, [(4, 0), (1, 1), (0.3, 2)]) if o.get('dup_ctype', True) else 0):
            hs.insert(rng.randint(0, len(hs)), (an, rng.choice(['XMLHttpRequest', 'XMLHttpRequest', 'no', ''])))
        # the last one decides
        at = 1 + max([-1] + [i for i, h in enumerate(hs) if h[0] == an])
        hs.insert(rng.randint(at, len(hs)), (an, v))
        m['ajax'] = v == 'XMLHttpRequest'
    for n, v in o.get('extra', ()):
        hs.insert(rng.randint(0, len(hs)), (n, v))
    if not hs:
        hs.append(('X-A', 'b'))
    lines = []
    for n, v in hs:
        lead = pick(rng, [(6, ' '), (1, ''), (1, '  '), (1, '\t'), (0.5, ' \t ')])
        trail = pick(rng, [(8, ''), (1, ' '), (1, '\t'), (0.5, '  \t')])
        lines.append(n + ':' + lead + v + trail)
    head = m['method'] + ' ' + target + ' ' + m['proto'] + '\r\n' + '\r\n'.join(lines) + '\r\n\r\n'
    want = {}
    order = []
    for n, v in hs:
        if m['authority'] is None and n == hostname and n.lower() == 'host':
            continue
        if n not in want:
            order.append(n)
        want.setdefault(n, []).append(v.strip(' \t\r\n\x0b\x0c'))
    m['headers'] = [[n, want[n]] for n in order]
    src = m['authority'] if m['authority'] is not None else (hostvals[-1].strip() if hostvals else None)
    m['hostsrc'] = src
    if src is None:
        m['host'] = m['port'] = None
    elif valid_host(src):
        m['host'], m['port'] = host_parts(src)
    else:
        m['host'], m['port'] = '', None
    s = m['scheme'].lower()
    m['scheme_out'] = s or 'UNKNOWN'
    m['port_out'] = m['port'] if m['port'] is not None else '443' if s == 'https' else '80' if s == 'http' else '65536'
    return head.encode('ascii'), m


# ------------------------------------------------------------------ multipart bodies
BNDCH = LETTERS + string.digits
BNDALL = BNDCH + "'()+_,-./:=? !#$%&*;<>@[]^`{|}~"


def gen_boundary(rng):
    b = pick(rng, [(3, lambda: '-' * rng.randint(0, 29) + word(rng, BNDCH, 1, 30)), (1, lambda: word(rng, BNDCH, 1, 3)),
                   (1, lambda: word(rng, BNDALL, 1, 60) + 'z'), (0.5, lambda: word(rng, '-', 1, 4)), (0.3, lambda: word(rng, BNDCH, 150, 190)),
                   (0.5, lambda: 'a.*b+(c)' + word(rng, BNDCH, 0, 4))])()
    b = b.strip()
    if b.startswith('"') or not b:
        b = 'x' + b
    return b


def param(rng, name, value, mode=None):
    """name=value as quoted string, token or extended value"""
    if isinstance(value, str):
        value = value.encode('latin-1')
    if name == 'boundary' or mode == 'quoted' or not value or any(chr(c) not in BNDCH + '._-' for c in value) or rng.random() < 0.6:
        if name == 'boundary' and all(chr(c) in BNDCH + "'()+_,-./:?" for c in value) and rng.random() < 0.6:
            return name.encode() + b'=' + value
        return name.encode() + b'="' + value.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'
    return name.encode() + b'=' + value


def lookalike(rng, delim):
    d = delim
    return rng.choice([b'\r\n' + d[:-1], d[:-1], b'\r\n--', b'\r\n-', b'\r', b'\n', b'\r\n', b'\r\r\n', b'\n\r', b'\r\n\r\n', d[2:], b'\r\n' + d[2:], b'-', b'--',
                       d[:len(d) // 2], d[1:-1], b'\r\n' + d[:3], b'Content-Disposition: form-data; name="evil"\r\n\r\nx', d[:-1] + b'\r\n' + d[:-1]])


def smuggled(rng):
    """what would be a part if parsing went on in the middle of the data"""
    # (a part's first 1024 bytes are read together with its header: what is to be found
    # by a parser that went on too early comes before and after that)
    fill = lambda: word(rng, LETTERS, 5, 5).encode() * (rng.randint(0, 120) if rng.random() < 0.4 else rng.randint(180, 420))
    return (fill() + b'\r\nContent-Disposition: form-data; name="%s"' % rng.choice([b'smuggled', b'a', b'x']) + rng.choice([b'', b'', b'; filename="smuggled.txt"']) + b'\r\n\r\nevil'
            + rng.choice([b'', fill()]))


def gen_data(rng, delim, sizes=None, big=0.03):
    k = rng.random()
    if sizes is not None and max(sizes) >= 300 and k < 0.06:
        d = smuggled(rng)
    elif sizes is not None:
        n = max(0, rng.choice(sizes))
        d = rng.randbytes(n) if rng.random() < 0.4 else (word(rng, LETTERS + '\r\n -', 7, 40).encode() * (n // 7 + 1))[:n]
    elif k < 0.1:
        d = b''
    elif k < 0.35:
        d = word(rng, LETTERS + ' ', 1, 20).encode()
    elif k < 0.5:
        d = rng.randbytes(rng.randint(1, 80))
    elif k < 0.5 + big:
        d = rng.randbytes(max(0, rng.choice([1024, 4096, 16384, 65536, 131072]) + rng.randint(-200, 200)))
    elif k < 0.62:
        d = rng.randbytes(rng.randint(100, 3000))
    elif k < 0.67:
        d = smuggled(rng)
    else:
        d = b''.join(rng.choice([lookalike(rng, delim), word(rng, LETTERS, 0, 6).encode(), rng.randbytes(rng.randint(0, 4))]) for _ in range(rng.randint(1, 6)))
    while delim in d:
        d = d.replace(delim, delim[:-1])
    return d


def b64wire(rng, data):
    import base64
    e = base64.b64encode(data)
    k = rng.random()
    if k < 0.3 or not e:
        return e
    if k < 0.6:
        n = rng.choice([76, 64, 60, 4, 1, 3, 5, 7])
        sep = rng.choice([b'\r\n', b'\n', b' '])
        return sep.join(e[i:i + n] for i in range(0, len(e), n)) + rng.choice([b'', sep])
    out = bytearray()
    for c in e[:2000]:
        out.append(c)
        if rng.random() < 0.15:
            out += rng.choice([b'\r\n', b'\n', b' ', b'\t', b'\r\n\r\n'])
    return bytes(out) + e[2000:]


FNAMES = [b'a.txt', b'r\xc3\xa9sum\xc3\xa9.pdf', b'x', b'a b.c', b'.htaccess', b'a;b.txt', b'a"b.x', b"it's.gif", b'.a.b.c', b'\xe9.bin', b'a=b', b'photo.JPG',
          b'x' * 200 + b'.tar.gz', b'-rf', b'~', b'a%2e', b'$(id)', b'con', b'a&b', b'A.upload', b'x.' + b'y' * 60, b'n\xe2\x98\x83.t\xc3\xa9']
PNAMES = [b'a', b'b', b'name', b'file', b'x[]', b'r\xc3\xa9', b'a b', b'a;b', b'a"b', b'', b'filename', b'data', b'A', b"n'", b'\\', b'a=b']
CTYPES = [(None, '', {}), ('text/plain', 'text/plain', {}), ('Text/HTML; charset=UTF-8', 'text/html', {'charset': 'UTF-8'}),
          ('application/octet-stream', 'application/octet-stream', {}), ('image/png; name="x;y"', 'image/png', {'name': 'x;y'}),
          ('text/plain;CHARSET="latin-1" ; format=flowed', 'text/plain', {'charset': 'latin-1', 'format': 'flowed'}), ('a', 'a', {}), ('', '', {}),
          ('text/x:y; a=b:c', 'text/x:y', {'a': 'b:c'}), ('text/csv; header="say \\"hi\\""', 'text/csv', {'header': 'say "hi"'})]


def gen_part(rng, kind, delim, o):
    p = {'kind': kind, 'filename': None}
    p['name'] = o['names'](rng) if 'names' in o else rng.choice(PNAMES) if rng.random() < 0.75 else word(rng, TOKEN.replace('"', ''), 1, 9).encode()
    if o.get('long') == 'name':
        p['name'] = b'n' + text_of(rng, TOKEN.replace('"', ''), large(rng, 10, 600)).encode()
    p['data'] = gen_data(rng, delim, o.get('sizes' if kind == 'file' else 'field_sizes'), o.get('big', 0.03))
    te, te_out = pick(rng, [(6, (None, None)), (0.7, ('binary', 'binary')), (0.5, ('8bit', '8bit')), (o.get('b64', 1.2), ('base64', 'base64')), (o.get('b64', 1.2) / 2, ('BASE64', 'base64')),
                            (0.3, ('Quoted-Printable', 'quoted-printable')), (0.2, ('7bit; x=y', '7bit'))])
    p['te'] = te_out
    p['wire'] = b64wire(rng, p['data']) if te_out == 'base64' else p['data']
    ct, p['ctype'], p['extra'] = rng.choice(CTYPES)
    if o.get('long') == 'data':
        p['data'] = long_data(rng, delim, large(rng, 65536, 3 << 20))
        p['wire'] = b64wire(rng, p['data']) if te_out == 'base64' else p['data']
    if o.get('long') == 'ctype':
        p['ctype'] = 'x/' + text_of(rng, 'abc0-+.', large(rng, 30, 300))
        v = text_of(rng, LETTERS + '0123456789._-', large(rng, 30, 300))
        ct, p['extra'] = p['ctype'] + '; Charset="%s"' % v, {'charset': v}
    pars = [param(rng, 'name', p['name'])]
    if kind == 'file':
        p['filename'] = o['fnames'](rng) if 'fnames' in o else rng.choice(FNAMES) if rng.random() < 0.8 else word(rng, LETTERS + '._-', 1, 30).strip('.').encode() or b'f'
        if o.get('long') == 'name':
            p['filename'] = text_of(rng, LETTERS + '_-', rng.randint(64, 250)).encode() + rng.choice([b'', b'.txt'])
        pars.append(param(rng, 'filename', p['filename']))
    elif kind == 'field' and rng.random() < 0.12:
        pars.append(b'filename=""')
    if rng.random() < 0.15:
        pars.append(param(rng, 'x-other', 'v;w'))
    if rng.random() < 0.3:
        rng.shuffle(pars)
    sep = lambda: rng.choice([b'; ', b'; ', b'; ', b';', b' ; ', b';  '])
    disp = rng.choice([b'form-data', b'form-data', b'form-data', b'Form-Data', b'attachment'])
    hs = [(rng.choice([b'Content-Disposition', b'Content-Disposition', b'content-disposition', b'CONTENT-DISPOSITION']),
           disp + b''.join(sep() + x for x in pars))]
    if ct is not None:
        hs.append((rng.choice([b'Content-Type', b'content-type']), ct.encode()))
    if te is not None:
        hs.append((rng.choice([b'Content-Transfer-Encoding', b'content-transfer-encoding']), te.encode()))
    if rng.random() < 0.15:
        hs.append((b'Content-Length', rng.choice([str(len(p['wire'])), '0', 'x', '-5', '999999', '']).encode()))
    if rng.random() < 0.15:
        hs.append((b'X-Extra', rng.choice([b'name=evil; filename=evil', b'', b'a: b', b'multipart/form-data; boundary=zz'])))
    if rng.random() < 0.06:
        # up to what may be the headers of one part (1024 bytes with the line ends around them)
        room = rng.choice([300, 500, 512, 600, 800, 1000, 1014, 1015, 1016]) - sum(len(n) + len(v) + 5 for n, v in hs) - 10
        if room > 0:
            hs.append((b'X-Fill', (word(rng, LETTERS + ' ;="', 20, 20) + 'x').encode() * 60))
            hs[-1] = (hs[-1][0], hs[-1][1][:room])
    if rng.random() < 0.4:
        rng.shuffle(hs)
    p['head'] = b'\r\n'.join(n + b':' + rng.choice([b' ', b' ', b' ', b'', b'  ']) + v for n, v in hs)
    p['clen'] = None
    for n, v in hs:
        if n == b'Content-Length':
            try:
                p['clen'] = int(v)
            except ValueError:
                pass
    if len(p['head']) > 1016:
        return gen_part(rng, kind, delim, o)
    return p


def long_data(rng, delim, n):
    """data of which every piece is different"""
    w = rng.choice([b'%07d\r\n', b'%x', b'%d\n', b'-%d-'])
    d = b''.join(w % i for i in range(rng.randint(0, 999), n // 4 + 1000))[:n]
    while delim in d:
        d = d.replace(delim, delim[:-1])
    return d


BAD = [b'Content-Disposition: form-data', b'Content-Disposition: form-data; filename="x.txt"', b'Content-Type: text/plain', b'X', b'',
       b'Content-Disposition form-data; name="evil"', b'Content-Disposition: form-data; nam="evil"', b': ', b'Content-Type: a\r\nContent-Length: 5',
       b'Content-Disposition:form-data;name*="x', b'X-Content-Disposition: form-data; name="evil"', b'Cont\xc3\xa9nt: x', b'\xff']


def gen_bad_part(rng, delim):
    p = {'kind': 'bad', 'name': None, 'filename': None, 'data': gen_data(rng, delim, None, 0.01), 'head': rng.choice(BAD)}
    if b'name*=' in p['head']:
        p['head'] = BAD[0]
    p['wire'] = p['data']
    if rng.random() < 0.3:
        # no end of headers at all
        p['nohead'] = True
        p['wire'] = p['data'].replace(b'\r\n\r\n', b'')
        p['wire'] = p['wire'].replace(b'\r\n\r\n', b'').rstrip(b'\r\n') + b'x'
        p['head'] = b''
    elif rng.random() < 0.15:
        p['kind'] = 'field0'
    return p


def assemble(rng, parts, boundary, o):
    """Returns (body, positions): positions[i] is where the delimiter before part i starts; the last one is the closing one."""
    delim = b'--' + boundary.encode()
    pre = o.get('preamble')
    if pre is None:
        pre = gen_prose(rng, delim) if rng.random() < 0.2 else b''
    out = [pre + b'\r\n' if pre else b'']
    n = len(out[0])
    pos, spans = [], []
    for p in parts:
        pos.append(n)
        pad = rng.choice([b'', b'', b'', b'', b'', b' ', b'\t', b'  ']) if not p.get('nohead') else b''
        if p.get('nohead'):
            t = delim + b'\r\n' + p['wire']
            start = n + len(t) - len(p['wire'])
        else:
            t = delim + pad + b'\r\n' + (p['head'] + b'\r\n' if p['head'] else b'') + b'\r\n' + p['wire']
            start = n + len(t) - len(p['wire'])
        spans.append((start, n + len(t)))
        t += b'\r\n'
        out.append(t)
        n += len(t)
    pos.append(n)
    tail = rng.choice([b'--', b'--\r\n', b'--\r\n', b'--\r\n', b'--\r\n' + gen_prose(rng, delim)])
    out.append(delim + tail)
    body = b''.join(out)
    # the delimiter occurs exactly where it was put
    at, found = body.find(delim), []
    while at >= 0:
        found.append(at)
        at = body.find(delim, at + len(delim))
    if found != pos:
        return None
    return body, pos, spans


def gen_prose(rng, delim):
    t = rng.choice([b'This is a multi-part message in MIME format.', b'preamble\r\nof two lines', b'\r\n', b'a: b\r\n\r\nc', b'--', b'-', rng.randbytes(rng.randint(1, 40)),
                    b'x' * 1500, lookalike(rng, delim).replace(b'isposition', b''), b'\r\n\r\n'])
    t = t.replace(delim, b'')
    return b'' if delim in t else t


def multipart(rng, **o):
    """Returns (head, body, model). o: fields, files, bad (ranges of counts), names, fnames, sizes, clen"""
    for _ in range(200):
        boundary = o['boundary'] if 'boundary' in o else gen_boundary(rng)
        delim = b'--' + boundary.encode()
        # one thing in it that is much larger than usual
        long = rng.choice(o.get('longs', ['fields', 'files', 'repeated fields', 'repeated files', 'name', 'ctype', 'field data', 'file data', 'boundary'])) if rng.random() < o.get('large', 0) else None
        lo = o
        if long:
            if long == 'boundary' and 'boundary' not in o:
                boundary = text_of(rng, BNDCH, rng.randint(61, 200))
                delim = b'--' + boundary.encode()
            few = (0, 1) if long.endswith('data') else (0, 3)
            lo = dict(o, fields=few, files=few, long=long.split(' ')[-1])
            if long.endswith('fields') or long.endswith('files'):
                file = long.endswith('files')
                lo['files' if file else 'fields'] = (large(rng, 10, 120 if file else 1000),) * 2
                lo['sizes'] = lo['field_sizes'] = [0, 1, 5, 30]
                if long.startswith('rep'):
                    lo['names'] = lambda r: r.choice([b'n'] * 9 + [b'm'])
                elif 'names' not in o:
                    lo['names'] = lambda r: text_of(r, LETTERS, 4).encode()
            elif long == 'field data':
                lo['fields'], lo['files'] = (1, 1), (0, 0)
            elif long == 'file data':
                lo['fields'], lo['files'] = (0, 0), (1, 1)
            elif long == 'name' or long == 'ctype':
                lo['fields'] = lo['files'] = (0 if long == 'name' else 1, 2)
        kinds = ['field'] * rng.randint(*lo.get('fields', (0, 4))) + ['file'] * rng.randint(*lo.get('files', (0, 3))) + ['bad'] * rng.randint(*o.get('bad', (0, 1)))
        rng.shuffle(kinds)
        parts = [o.get('bad_gen', gen_bad_part)(rng, delim) if k == 'bad' else gen_part(rng, k, delim, lo) for k in kinds]
        a = assemble(rng, parts, boundary, o)
        if a is not None and all(delim not in p['head'] for p in parts):
            break
    else:
        raise AssertionError('no body')
    body, pos, spans = a
    m = {'boundary': boundary, 'parts': parts, 'pos': pos, 'spans': spans, 'large': long}
    clen = o.get('clen', lambda r, n: r.choice([n, n, n, n, n + 7, 1, max(1, n - 3), 10 ** 6]))(rng, len(body)) if body else 1
    m['clen'] = clen
    head = multipart_head(rng, boundary, clen, o.get('charset'))
    return head, body, m


def multipart_head(rng, boundary, clen, charset=None, extra=()):
    ct = rng.choice(['multipart/form-data', 'multipart/form-data', 'multipart/form-data', 'Multipart/Form-Data']).encode()
    pars = [param(rng, 'boundary', boundary)]
    if charset:
        pars.append(b'charset=' + charset.encode())
    if rng.random() < 0.1:
        pars.append(b'x=y')
    rng.shuffle(pars)
    ct += b''.join(rng.choice([b'; ', b';']) + x for x in pars)
    hs = [(b'Host', b'a.com'), (case_mix(rng, 'Content-Type').encode(), ct)] + list(extra)
    if clen is not None:
        hs.append((case_mix(rng, 'Content-Length').encode(), str(clen).encode()))
    if rng.random() < 0.2:
        hs.append((b'X-Boundary', b'--' + boundary.encode()))
    rng.shuffle(hs)
    return b'POST /up HTTP/1.1\r\n' + b''.join(n + b': ' + v + b'\r\n' for n, v in hs) + b'\r\n'


def hot_spots(head, m):
    h = len(head)
    out = [h]
    for p, (s, e) in zip(m['pos'], m['spans']):
        out += [h + p, h + p + 2 + len(m['boundary']), h + s, h + e, h + e + 2]
    out.append(h + m['pos'][-1])
    return out


def field_value(p):
    return {'data': p['data'], 'content-type': p['ctype'], 'transfer-encoding': p['te'] or '', 'content-type-extra': p['extra']}


def group(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return [[k, v] for k, v in out.items()]


def want_post(parts):
    return group((p['name'].strip(), field_value(p)) for p in parts if p['kind'] == 'field')


def want_files(parts):
    return group((p['name'].strip(), p) for p in parts if p['kind'] == 'file')
