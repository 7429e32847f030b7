import base64
import string

from .common import *
from .u01 import CallCheck, HTTP

DIGITS = string.digits + string.ascii_lowercase


def b36(i):
    s = ''
    while True:
        i, n = divmod(i, 36)
        s = DIGITS[n] + s
        if not i:
            return s


class CHECK(CallCheck):
    id = 'U04'
    n = 1800
    rule = 'integers of all sizes around the powers of 36 and 2, strings of base-36 digits in both cases, byte strings of all lengths and contents, padded, unpadded and malformed base64; distinct by batch'
    required = ('int', 'big int', 'negative', '13 digits', 'too long', 'upper case', 'bad base36', 'base64', 'padded', 'impossible length', 'odd characters', 'non-ASCII', 'url-safe characters', 'empty', 'long')
    assumptions = ['characters outside the base64 alphabet may be ignored or refused; white space and signs around base-36 digits are not judged']

    def one(self, rng, tags):
        op = rng.choice(['int', 'int', 'str', 'badstr', 'b64', 'b64', 'bad64'])
        if op == 'int':
            r = rng.random()
            if r < 0.4:
                i = rng.choice([36, 2, 10]) ** rng.randint(0, 12) + rng.randint(-2, 2)
            elif r < 0.6:
                i = rng.randrange(36 ** 13)
            elif r < 0.8:
                i = 36 ** 13 - rng.randint(1, 40)
            else:
                i = rng.choice([0, 1, 35, 36, 37, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 63 - 1, -1, -36, -2 ** 70, 36 ** 13, 36 ** 14 + 5])
            if i < 0:
                tags.add('negative')
                return [(HTTP + 'int_to_base36', [i], {})], ('refuse', i)
            s = b36(i)
            tags.add('big int' if i > 2 ** 63 else 'int')
            tags.add('too long' if len(s) > 13 else '13 digits' if len(s) == 13 else 'int')
            return [(HTTP + 'int_to_base36', [i], {}), (HTTP + 'base36_to_int', [s], {})], ('int', i, s)
        if op == 'str':
            n = rng.randint(1, 16)
            s = ''.join(rng.choice(DIGITS + DIGITS.upper()) for _ in range(n))
            if rng.random() < 0.2:
                s = rng.choice(['0x1f', '0b11', '0o17', '10L', '1e5', 'nan', 'inf', '0' * 13, '0' * 14, 'z' * 13, 'Z' * 14, 'L', '00z'])
            if s != s.lower():
                tags.add('upper case')
            if len(s) > 13:
                tags.add('too long')
                return [(HTTP + 'base36_to_int', [s], {})], ('refuse', s)
            return [(HTTP + 'base36_to_int', [s if rng.random() < 0.5 else s.encode()], {})], ('value', s, int(s, 36))
        if op == 'badstr':
            tags.add('bad base36')
            s = ''.join(rng.choice(DIGITS) for _ in range(rng.randint(0, 6)))
            at = rng.randint(0, len(s))
            if rng.random() < 0.85:
                s = s[:at] + rng.choice('!$%&/()=?.,;:*#\'"<>|@[]{}~^\x00') + s[at:]
            elif s:
                s = s + '-' + s
            return [(HTTP + 'base36_to_int', [s], {})], ('refuse', s)
        if op == 'b64':
            n = gen.pick(rng, [(1, 0), (4, rng.randint(1, 12)), (1, rng.randint(50, 200)), (0.1, gen.large(rng, 200, 100000))])
            if n > 1000:
                tags.add('long')
            d = bytes(rng.choice([rng.randrange(256), 255, 254, 251, 0]) for _ in range(n))
            if not d:
                tags.add('empty')
            tags.add('base64')
            full = base64.urlsafe_b64encode(d).decode()
            s = full.rstrip('=')
            if '-' in s or '_' in s:
                tags.add('url-safe characters')
            if rng.random() < 0.3:
                tags.add('padded')
                given = full
            else:
                given = s
            return [(HTTP + 'urlsafe_base64_encode', [d], {}), (HTTP + 'urlsafe_base64_decode', [given if rng.random() < 0.5 else given.encode()], {})], ('b64', d, s)
        s = ''.join(rng.choice(string.ascii_letters + string.digits + '-_') for _ in range(rng.randint(0, 12)))
        r = rng.random()
        if r < 0.4:
            s = (s * 5 + 'AAAAAAAAAAAAA')[:4 * rng.randint(0, 3) + 1]
            tags.add('impossible length')
            return [(HTTP + 'urlsafe_base64_decode', [s], {})], ('refuse', s)
        at = rng.randint(0, len(s))
        if r < 0.8:
            s = s[:at] + rng.choice(['=', '==', '*', ' ', '\n', '+', '/', '%3D', '\x00', '!']) + s[at:]
            tags.add('odd characters')
            return [(HTTP + 'urlsafe_base64_decode', [s], {})], ('lenient', s)
        tags.add('non-ASCII')
        s = s[:at] + rng.choice(['é', '\u20ac', '\xff', '\uff21']) + s[at:]
        return [(HTTP + 'urlsafe_base64_decode', [s], {})], ('lenient', s)

    def judge_one(self, ps, x, r):
        kind = x[0]
        if kind == 'refuse':
            if not is_exc(r[0], 'ValueError'):
                ps.append(Problem('%r is not refused: %r' % (x[1], r[0]), kind))
        elif kind == 'lenient':
            if is_exc(r[0]) and not is_exc(r[0], 'ValueError'):
                ps.append(Problem('%r: %r is no ValueError' % (x[1], r[0]), kind))
        elif kind == 'int':
            _, i, s = x
            if r[0] != s:
                ps.append(Problem('%d is %r instead of %r' % (i, r[0], s), kind))
            if len(s) > 13:
                if not is_exc(r[1], 'ValueError'):
                    ps.append(Problem('%r of %d digits is not refused: %r' % (s, len(s), r[1]), 'refuse'))
            elif r[1] != i:
                ps.append(Problem('%r is %r instead of %d' % (s, r[1], i), 'value'))
        elif kind == 'value':
            if r[0] != x[2]:
                ps.append(Problem('%r is %r instead of %d' % (x[1], r[0], x[2]), kind))
        else:
            _, d, s = x
            if r[0] != norm(s):
                ps.append(Problem('%r is encoded as %r instead of %r' % (d, r[0], s), 'encode'))
            if r[1] != norm(d):
                ps.append(Problem('%r is decoded to %r instead of %r' % (s, r[1], d), 'decode'))
