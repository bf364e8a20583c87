"""Generators of codec sessions: systematic boundary cases plus seeded random ones.  They only choose inputs; what the
implementation must do with them is decided by the specification."""
import hashlib, json, os
from core import VERIF

CODES = [1, 2, 3, 4, 5, 11, 12, 13, 40, 41, 42, 43, 44, 45, 255, 0]
SEALED = [4, 40, 43]
PLAIN = [1, 12]
RESP = [2, 3, 5, 11, 41, 42, 44, 45]
ATTRS = json.load(open(os.path.join(VERIF, 'dict', 'attributes.json')))
CONSTS = json.load(open(os.path.join(VERIF, 'dict', 'constants.json')))

def hx(b): return bytes(b).hex()
def rb(r, n): return bytes(r.randrange(256) for _ in range(n))
def md5(b): return hashlib.md5(b).digest()

def area(attrs): return b''.join(bytes([t, len(v) + 2]) + v for t, v in attrs)
def pkt(code, ident, auth, body=b'', length=None, pad=b''):
    n = 20 + len(body) if length is None else length
    return bytes([code, ident]) + n.to_bytes(2, 'big') + auth + body + pad
def sealed(code, ident, mid, body, secret, length=None, pad=b''):
    n = 20 + len(body) if length is None else length
    h = bytes([code, ident]) + n.to_bytes(2, 'big')
    return h + md5(h + mid + body + secret) + body + pad
Z16 = bytes(16)

class Bag:
    """Collects sessions; small groups of operations are packed into sessions of bounded size."""
    def __init__(self, pid, per=60):
        self.pid, self.per, self.out, self.cur, self.nxt = pid, per, [], [], 0
    def ops(self, *ops):
        if len(self.cur) + len(ops) > self.per and self.cur: self.flush()
        self.cur += ops
    def session(self, ops):
        self.flush()
        self.cur = list(ops)
        self.flush()
    def flush(self):
        if self.cur:
            self.out.append({'sid': '%s-%d' % (self.pid, len(self.out) + 1), 'ops': self.cur})
            self.cur = []
    def done(self):
        self.flush()
        return self.out

LONG = [100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 1000]
TEXT_SECRETS = [b'Secret', b'SECRET', b'secret ', b' secret', b'secret\n', b'secret\r\n', b'secret\x00', b'\x00', b'\x00' * 16, b'\xff\xfe', b'"s"', b'p\xc3\xa4ss', b'0', b'*redacted*']
def rid(r): return r.choice([0, 1, 127, 128, 254, 255]) if r.random() < .3 else r.randrange(256)
def ra(r):
    a, k = rb(r, 16), r.random()
    return a if k > .15 else [Z16, b'\xff' * 16, b'\0' + a[1:], a[:-1] + b'\0', a[:8] * 2, b'\0' * 15 + b'\1'][int(k * 40) % 6]
def typ(r, usual):
    """An attribute type, which makes no difference to how a value is coded."""
    return usual if r.random() < .3 else r.randrange(256)
def rsecret(r):
    k = r.random()
    if k < .12: return rb(r, r.choice(LONG))
    if k < .2: return r.choice(TEXT_SECRETS)
    return rb(r, r.choice([1, 2, 5, 8, 15, 16, 17, 31, 55, 56, 63, 64]))
def near(r, s):
    """Other secrets that are easily taken for s."""
    f = lambda k: s[:k] + bytes([s[k] ^ (1 << r.randrange(8))]) + s[k + 1:]
    out = [s + b'\0', s + s, s[:-1], b'\0' + s, s + b'\n', s[1:], s.swapcase(), s.strip(), s.rstrip(b'\0'), s[::-1], s + b' ']
    out += [f(k) for k in {0, len(s) - 1, len(s) // 2, r.randrange(len(s))}] if s else []
    out += [s[:k] for k in (8, 16, 32, 48, 64, 128, 253, 255, 256) if k < len(s)]
    out += [f(k) for k in (16, 64, 128, 253, 255, 256) if k < len(s)]
    return sorted(set(x for x in out if x != s))
def blurred(r, b):
    """Packets that differ from b in several octets of the authenticator."""
    out, a = [], b[4:20]
    for k in range(3):
        i, j = sorted(r.sample(range(16), 2))
        x = r.randrange(1, 256)
        m = bytearray(a); m[i] ^= x; m[j] ^= x; out.append(m)                      # the same difference twice
        m = bytearray(a); m[i], m[j] = m[j], m[i]; out.append(m)                     # exchanged
        m = bytearray(a); m[i] = (m[i] + 1) % 256; m[j] = (m[j] - 1) % 256; out.append(m)  # the same sum
    out += [a[1:] + a[:1], a[::-1], a[8:] + a[:8], bytes(x ^ 255 for x in a), bytes(16)]
    for k in (1, 2, 4, 8, 12, 15): out += [a[:k] + rb(r, 16 - k), rb(r, 16 - k) + a[16 - k:], a[:k] + bytes(16 - k)]
    return [b[:4] + bytes(m) + b[20:] for m in out if bytes(m) != a]
def rattrs(r, maxn=6, maxlen=20):
    return [(r.choice([0, 1, 2, 26, 79, 255, r.randrange(256)]), rb(r, r.choice([0, 1, 2, 4, r.randrange(maxlen + 1)]))) for _ in range(r.randrange(maxn + 1))]

# ---------------------------------------------------------------- packets
def each_type(r):
    """Packets in which one attribute type occurs again and again: full, next to a full one, short, repeated, apart, padded."""
    for t in range(256):
        u, v, f = (t + r.randrange(1, 256)) % 256, rb(r, r.choice([1, 4, 16, 18])), rb(r, 253)
        yield t, [(t, f), (t, rb(r, 253)), (t, rb(r, 5)), (u, v), (t, v), (t, v), (u, b''), (t, f), (t, v + b'\0'), (t, b' v '), (t, b''), (t, v)]

def g_encode(chk, within=False):
    """within: only packets that have an encoding."""
    r, b = chk.rng, Bag(chk.pid)
    def roundtrip(o, secret):
        return [dict(e='get', o=o), dict(e='enc', o=o, r='w'), dict(e='enc', o=o, r='w2'), dict(e='get', o=o),
                dict(e='dec', o=9, b={'r': 'w'}, secret=hx(secret)), dict(e='get', o=9), dict(e='enc', o=9)]
    for code in [c for c in CODES if not within or c not in (13, 255, 0)]:
        for k in range(chk.n(4, 40)):
            s = rsecret(r) if k else b''
            ops = [dict(e='new', o=1, code=code, id=r.choice([-1, 0, 255, r.randrange(256)]), secret=hx(s))]
            ops += [dict(e='add', o=1, t=t, v=hx(v)) for t, v in (rattrs(r) if k else [])]
            b.session(ops + roundtrip(1, s))
            # the same from a decoded packet, with known authenticator
            body = area(rattrs(r))
            b.session([dict(e='dec', o=1, b=hx(pkt(code, rid(r), ra(r), body)), secret=hx(s))] + roundtrip(1, s))
    # every attribute type
    for t in range(0, 256):
        b.ops(dict(e='new', o=1, code=1, id=t, secret='73'), dict(e='add', o=1, t=t, v=hx(rb(r, r.randrange(4)))), dict(e='enc', o=1, r='w'),
              dict(e='dec', o=2, b={'r': 'w'}, secret='73'), dict(e='get', o=2))
    for t, a in each_type(r):
        s = rsecret(r)
        b.ops(dict(e='new', o=1, code=r.choice([1, 1, 2, 4, 12]), id=rid(r), secret=hx(s)), dict(e='ext', o=1, avs=[[x, hx(v)] for x, v in a]), dict(e='enc', o=1, r='w'),
              dict(e='dec', o=2, b={'r': 'w'}, secret=hx(s)), dict(e='get', o=2), dict(e='enc', o=2))
    # value lengths, also those over the limit
    for n in [0, 1, 2, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 258, 300, 509, 510, 511, 512, 1000, 4076, 65536, 65789]:
        if within and n > 253: continue
        for code in [1, 4, 2] + ([0, 13] if n in (253, 254) and not within else []):
            for pre in [[], [(1, b'ab')]]:
                ops = [dict(e='new', o=1, code=code, id=7, secret='73')]
                ops += [dict(e='add', o=1, t=t, v=hx(v)) for t, v in pre] + [dict(e='add', o=1, t=33, v=hx(bytes([n % 251]) * n))]
                b.session(ops + roundtrip(1, b's'))
    # total lengths around the limits (also those that wrap a 16-bit length)
    def fill(total):
        n, out = total - 20, []
        while n > 0:
            k = min(n, 255)
            if n - k == 1: k -= 1
            out.append((1 + len(out) % 250, bytes([len(out) % 256]) * (k - 2)))
            n -= k
        return out
    for total in [x for x in [20, 22, 23, 255, 256, 257, 511, 512, 1499, 1500, 1501, 2047, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4300, 5000, 8192,
                  32768, 65534, 65535, 65536, 65537, 65556, 65600, 69632, 70000] if not within or x <= 4096]:
        for code in ([1, 2, 3, 4, 5, 11, 12, 40, 41, 42, 43, 44, 45] if total in (4096, 4097) else [1, 4, 2, 44]):
            a = fill(total)
            b.session([dict(e='new', o=1, code=code, id=1, secret='7365637265'), dict(e='ext', o=1, avs=[[t, hx(v)] for t, v in a]),
                       dict(e='enc', o=1, r='w'), dict(e='dec', o=9, b={'r': 'w'}, secret='7365637265'), dict(e='enc', o=9)] +
                      ([dict(e='get', o=9)] if total <= 4096 else []))
    # many tiny attributes
    for n in [100, 1000, 2037, 2038] + ([] if within else [2039]):
        b.session([dict(e='new', o=1, code=1, id=1, secret='73'), dict(e='ext', o=1, avs=[[i % 256, ''] for i in range(n)]), dict(e='enc', o=1, r='w'),
                   dict(e='dec', o=2, b={'r': 'w'}, secret='73'), dict(e='get', o=2)])
    # equal attributes, next to each other and apart; attributes that differ in one place; values that look like attributes
    for k in range(chk.n(24, 200)):
        t, v = r.choice([0, 1, 18, 24, 26, 79, 80, 255, r.randrange(256)]), rb(r, r.choice([0, 1, 4, 16, 16, 18, 253]))
        u = (t + 1) % 256
        shapes = [[(t, v)] * r.choice([2, 3, 15]), [(t, v), (u, v), (t, v)], [(t, v), (t, v + b'\0') if len(v) < 253 else (u, v), (t, v)], [(t, v), (t, v[:-1]), (t, v)],
                  [(t, b''), (t, b''), (u, b''), (t, b'')], [(t, bytes([t, 2]) * 4), (t, b'\x01\x01'), (u, bytes([0, 0, 0]))], [(t, bytes(len(v))), (t, b'\xff' * len(v)), (t, v)],
                  [(80, bytes(16)), (80, rb(r, 16)), (t, v)], [(i, v[:8]) for i in r.sample(range(256), 40)] + [(t, v)]]
        for a in shapes:
            s = rsecret(r)
            b.session([dict(e='new', o=1, code=r.choice([1, 1, 2, 3, 4, 11, 12, 40, 43]), id=rid(r), secret=hx(s)), dict(e='ext', o=1, avs=[[x, hx(y)] for x, y in a])] + roundtrip(1, s))
    # authenticators of every look
    for a in (Z16, b'\xff' * 16, Z16[:15] + b'\1', b'\1' + Z16[:15], bytes(range(16)), b'\x80' * 16):
        for code in (1, 12, 2, 4): b.session([dict(e='dec', o=1, b=hx(pkt(code, 9, a, area([(1, b'u')]))), secret='7365')] + roundtrip(1, b'se'))
    for _ in range(chk.n(150, 3000)):
        s = rsecret(r)
        code = r.choice([c for c in CODES if not within or c not in (13, 255, 0)])
        ops = [dict(e='new', o=1, code=code, id=rid(r), secret=hx(s))]
        ops += [dict(e='add', o=1, t=t, v=hx(v)) for t, v in rattrs(r, 12, r.choice([5, 60, 253] if within else [5, 60, 253, 260]))]
        b.session(ops + roundtrip(1, s))
    return b.done()

def g_decode(chk):
    r, b = chk.rng, Bag(chk.pid, 80)
    S = '736563726574'
    def dec(bs, secret=S):
        b.ops(dict(e='dec', o=1, b=hx(bs), secret=secret), dict(e='get', o=1))
    auth = bytes(range(16))
    for n in range(0, 26):
        dec(bytes([1]) * n)
        dec((bytes([1, 5, 0, n]) + auth + bytes([1, 2] * 4))[:n])
        dec(rb(r, n))
    for code in range(256):
        dec(pkt(code, code, auth, area([(1, b'x')])))
    for ident in (0, 1, 127, 128, 255): dec(pkt(1, ident, rb(r, 16)))
    for secret in ('', '00', 'ff' * 100): dec(pkt(1, 1, auth), secret)
    for code in CODES:                                      # headers of every look
        for a in (Z16, b'\xff' * 16, Z16[:15] + b'\1', b'\x80' + Z16[:15], b'\x20' * 16, Z16[:8] + b'\xff' * 8):
            for ident in (0, 255, r.randrange(256)):
                w = pkt(code, ident, a, r.choice([b'', area([(80, Z16)]), area([(1, b'x'), (33, b'')])])); dec(pkt(code, ident, a)); dec(w); dec(w + bytes(r.choice([1, 16])))
    # length field against the number of octets
    body = area([(1, b'abc'), (2, b''), (3, b'de')])
    for ln in list(range(0, 48)) + [255, 256, 257, 4095, 4096, 4097, 5000, 32768, 65535]:
        for extra in (0, 1, 5, 40):
            dec(pkt(1, 1, auth, body, length=ln, pad=bytes([0xAA]) * extra))
            dec(pkt(1, 1, auth, body, length=ln, pad=bytes([7, 3, 9] * 20)[:extra]))
    for total in (4095, 4096, 4097, 4098, 5000):
        out, n = b'', total - 20
        while n > 0:
            k = min(n, 255)
            if n - k == 1: k -= 1
            out += bytes([9, k]) + bytes([k]) * (k - 2); n -= k
        dec(pkt(2, 2, auth, out)); dec(pkt(2, 2, auth, out, length=4096)); dec(pkt(2, 2, auth, out, length=4097)); dec(pkt(2, 2, auth, out, pad=b'zz'))
    # exhaustive small attribute areas (the structures that MCWire enumerates in the scaled format)
    import itertools
    alpha = [0, 1, 2, 3, 4, 255] if not chk.thorough else [0, 1, 2, 3, 4, 5, 6, 254, 255]
    for n in range(0, 5):
        for w in itertools.product(alpha, repeat=n):
            dec(pkt(1, 1, auth, bytes(w)))
            if n <= 3:
                for d in (-1, 1):
                    dec(pkt(1, 1, auth, bytes(w), length=20 + n + d))
                dec(pkt(1, 1, auth, bytes(w), pad=b'\x02'))
    # attribute length octets
    for ln in range(256):
        v = bytes([ln]) * 253
        dec(pkt(11, 3, auth, bytes([5, ln]) + v))            # rest of the area follows
        if ln >= 2: dec(pkt(11, 3, auth, bytes([5, ln]) + v[:ln - 2]))
        if ln >= 3: dec(pkt(11, 3, auth, bytes([5, ln]) + v[:ln - 3]))
        if ln >= 2: dec(pkt(11, 3, auth, bytes([5, ln]) + v[:ln - 2] + b'\x09'))
    for t, a in each_type(r): dec(pkt(r.choice(CODES), rid(r), ra(r), area(a), pad=rb(r, r.choice([0, 0, 7]))))
    # inputs longer than any length field can say
    for n in (65534, 65535, 65536, 65537, 65555, 65556, 65557, 65600, 70000, 131072, 131100):
        w = pkt(1, 7, auth, body)
        dec(w + rb(r, 64) + bytes(n - 64 - len(w))); dec(pkt(4, 7, auth, b'\2\5abc', length=(n - 1) % 65536, pad=bytes(n - 25)))
    # many attributes: of one type, of few, of all; the last one torn or not
    for n in [3, 10, 50, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1001, 1023, 1024, 1358, 2037, 2038]:
        for kinds in ([1], [26, 79], list(range(256))):
            z = min(2 if n > 1500 else 3 if n > 800 else 4, 4076 // n)
            a = [(kinds[k % len(kinds)], bytes([k % 256] * (z - 2))) for k in range(n)]
            w = area(a)
            dec(pkt(1, 1, auth, w))
            if len(w) < 4076: dec(pkt(1, 1, auth, w + b'\x07'))
            dec(pkt(1, 1, auth, w[:-1] + (b'' if z > 2 else b'\x03')))
    # random well-formed packets and their mutations
    for _ in range(chk.n(400, 6000)):
        p = bytearray(pkt(r.choice(CODES), rid(r), ra(r), area(rattrs(r, r.choice([3, 8, 8, 40, 120]), 40))[:4076], pad=rb(r, r.choice([0, 0, 1, 3]))))
        dec(bytes(p))
        for _ in range(r.randrange(3)):
            p[r.randrange(len(p))] = r.choice([0, 1, 2, 255, r.randrange(256)])
        if r.random() < .3: p = p[:r.randrange(len(p) + 1)]
        if r.random() < .2: p += rb(r, r.randrange(5))
        dec(bytes(p))
    return b.done()

def g_authreq(chk):
    r, b = chk.rng, Bag(chk.pid, 80)
    def ask(bs, secret): b.ops(dict(e='areq', b=hx(bs), secret=hx(secret)))
    S = b'secret'
    for code in range(256):
        body = area([(1, b'nemo')])
        ask(sealed(code, 1, Z16, body, S), S)
        ask(pkt(code, 1, rb(r, 16), body), S)
        ask(sealed(code, 1, Z16, body, S), b'')
    for code in SEALED + PLAIN + [2, 0, 255]:
        for n in (1000, 1024, 1500, 2048, 4000, 4095, 4096, 4097, 5000):                    # long ones
            body = (area([(26, rb(r, 250))] * 20))[:n - 20]
            good = sealed(code, 3, Z16, body, S); ask(good, S); ask(good + b'\0', S)
            for k in (20, n // 2, n - 1): ask(good[:k] + bytes([good[k] ^ 1]) + good[k + 1:], S)
        for body in (b'', area([(1, b'nemo'), (4, bytes(4))]), area([(26, rb(r, 250))] * 3), area([(9, b'')])):
            for s in (b's', b'\x00', S, rb(r, 63), rb(r, 64), rb(r, 65), rb(r, 128), rb(r, 129), rb(r, r.choice(LONG)), r.choice(TEXT_SECRETS)):
                good = sealed(code, rid(r), Z16, body, s)
                ask(good, s)
                for x in near(r, s): ask(good, x)
                for x in blurred(r, good): ask(x, s)
                for pad in (b'\x00', b'\x00' * 7, rb(r, 20)): ask(good + pad, s)
                ask(good[:-1], s)
                ask(sealed(code, 1, Z16, body, s, length=20 + len(body) + 1), s)
                ask(sealed(code, 1, Z16, body, s, length=19), s)
                ask(sealed(code, 1, rb(r, 16), body, s), s)
                ask(pkt(code, 1, Z16, body), s); ask(pkt(code, 1, b'\xff' * 16, body), s)
                ask(pkt(code, 1, md5(bytes([code, 1]) + (20 + len(body)).to_bytes(2, "big") + Z16 + body), body), s)
    for n in (65500, 65535, 65536, 65556, 65580, 70000):                                     # very long padding and secrets
        for code in (1, 4, 43):
            good = sealed(code, 3, Z16, area([(1, b'nemo')]), S); ask(good + bytes(n - len(good)), S); ask(good[:30] + bytes(n - 30), S[:-1])
            if n in (65500, 65536): s = bytes(range(256)) * 256; s = (s + s)[:n]; good = sealed(code, 3, Z16, area([(1, b'nemo')]), s); ask(good, s); ask(good, s[:-1]); ask(good, s[:-256])
    # every octet of a sealed request, tampered with
    for code in SEALED:
        good = sealed(code, 77, Z16, area([(40, b'\x00\x00\x00\x01'), (44, b'session')]), S)
        for i in range(len(good)):
            for x in ((1, 0x80) if not chk.thorough else (1, 2, 4, 8, 16, 32, 64, 128)):
                m = bytearray(good); m[i] ^= x; ask(bytes(m), S)
    for n in range(0, 24):
        for code in (1, 4, 12, 40, 43):
            ask((bytes([code, 1, 0, n]) + bytes(30))[:n], S)
            if n >= 20: ask(sealed(code, 1, Z16, b'\x01\x02\x01\x02'[:n - 20], S), S)
    full(chk, r, b, SEALED + [1])
    # the library's own requests, and the packets decoded from them
    for code in CODES:
        for k in range(chk.n(6, 60)):
            s = rsecret(r)
            b.session([dict(e='new', o=1, code=code, id=rid(r), secret=hx(s))] +
                      [dict(e='add', o=1, t=t, v=hx(v)) for t, v in rattrs(r)] +
                      [dict(e='enc', o=1, r='w'), dict(e='areq', b={'r': 'w'}, secret=hx(s)), dict(e='areq', b={'r': 'w', 'm': [['a', '0000']]}, secret=hx(s)),
                       dict(e='areq', b={'r': 'w', 'm': [['x', r.randrange(400), 1 << r.randrange(8)]]}, secret=hx(s)),
                       dict(e='areq', b={'r': 'w', 'm': [['t', -1]]}, secret=hx(s)),
                       dict(e='areq', b={'r': 'w'}, secret=hx(s + b'x')), dict(e='areq', b={'r': 'w'}, secret=''), dict(e='areq', b={'r': 'w'}, secret=hx(r.choice(near(r, s)))),
                       dict(e='dec', o=2, b={'r': 'w'}, secret=hx(s)), dict(e='enc', o=2, r='w2'), dict(e='areq', b={'r': 'w2'}, secret=hx(s))])
    for _ in range(chk.n(300, 5000)):
        s = rsecret(r)
        m = bytearray(sealed(r.choice(SEALED + SEALED + PLAIN + RESP), rid(r), Z16, area(rattrs(r, 5, 60)), s, pad=rb(r, r.choice([0, 0, 2]))))
        if r.random() < .5: m[r.randrange(len(m))] ^= r.randrange(256)
        ask(bytes(m), s)
        if s: ask(bytes(m), r.choice(near(r, s)))
    return b.done()

def g_authresp(chk):
    r, b = chk.rng, Bag(chk.pid, 80)
    def ask(bs, q, secret): b.ops(dict(e='aresp', b=hx(bs), q=hx(q), secret=hx(secret)))
    S = b'secret'
    q = pkt(1, 9, rb(r, 16), area([(1, b'nemo')]))
    q2 = pkt(1, 9, rb(r, 16), area([(1, b'nemo')]))
    qs = sealed(4, 9, Z16, area([(40, bytes(4))]), S)
    for req in (q, qs):
        for code in range(256) if chk.thorough or req is q else RESP:
            good = sealed(code, 9, req[4:20], area([(18, b'hi')]), S)
            ask(good, req, S); ask(good, q2, S); ask(good, req, b''); ask(good, req, S + b'1')
        for n in (1000, 1024, 1500, 2048, 4000, 4095, 4096, 4097, 5000):
            body = (area([(79, rb(r, 250))] * 20))[:n - 20]
            good = sealed(11, 9, req[4:20], body, S); ask(good, req, S); ask(good + b'\0', req, S)
            for k in (20, n // 2, n - 1): ask(good[:k] + bytes([good[k] ^ 1]) + good[k + 1:], req, S)
        for n in (65500, 65536, 65580, 70000):
            good = sealed(2, 9, req[4:20], area([(18, b'hi')]), S); ask(good + bytes(n - len(good)), req, S); ask(good, req + bytes(n - len(req)), S); ask(good[:24] + bytes(n - 24), req, S)
        for body in (b'', area([(18, b'hello')]), area([(79, rb(r, 253))] * 8), area([(9, b'')])):
            for s in (b's', S, rb(r, 63), rb(r, 65), b'\x00', rb(r, 129), rb(r, r.choice(LONG)), r.choice(TEXT_SECRETS)):
                good = sealed(2, 9, req[4:20], body, s)
                ask(good, req, s)
                for x in near(r, s): ask(good, req, x)
                for x in blurred(r, good): ask(x, req, s)
                for x in blurred(r, req): ask(good, x, s)
                for pad in (b'\x00', rb(r, 9)): ask(good + pad, req, s)
                ask(good[:-1], req, s)
                ask(good, req + b'junk', s); ask(good, req[:20], s)
                ask(sealed(2, 9, Z16, body, s), req, s)
                ask(pkt(2, 9, req[4:20], body), req, s)
                ask(sealed(2, 9, req[4:20], body, s, length=21 + len(body)), req, s)
                ask(sealed(2, 9, req[4:20], body, s, length=19), req, s)
                ask(good, good, s); ask(req, req, s)
        good = sealed(3, 9, req[4:20], area([(18, b'reason'), (79, b'x')]), S)
        for i in range(len(good)):
            for x in ((1, 0x80) if not chk.thorough else (1, 2, 4, 8, 16, 32, 64, 128)):
                m = bytearray(good); m[i] ^= x; ask(bytes(m), req, S)
        for i in range(len(req)):
            m = bytearray(req); m[i] ^= 1 << (i % 8); ask(good, bytes(m), S)
        for n in range(0, 24):
            ask(good[:n], req, S); ask(good, req[:n], S)
    full(chk, r, b, RESP[:4])
    for t, a in each_type(r):                               # nothing of the request shows up in its response
        s, code = rsecret(r), r.choice(RESP)
        b.ops(dict(e='dec', o=1, b=hx(pkt(r.choice([1, 12]), rid(r), ra(r), area(a))), secret=hx(s)), dict(e='enc', o=1, r='q'), dict(e='mkresp', o=1, n=2, code=code), dict(e='get', o=2),
              dict(e='ext', o=2, avs=[[x, hx(v)] for x, v in r.sample(a, 3)]), dict(e='enc', o=2, r='w'), dict(e='aresp', b={'r': 'w'}, q={'r': 'q'}, secret=hx(s)), dict(e='get', o=1))
    for code in RESP + [1, 4, 12, 0, 13, 255]:
        for qcode in (1, 4, 12, 40, 43):
            for k in range(chk.n(2, 20)):
                s = rsecret(r)
                ops = [dict(e='new', o=1, code=qcode, id=rid(r), secret=hx(s))] + [dict(e='add', o=1, t=t, v=hx(v)) for t, v in rattrs(r)]
                ops += [dict(e='enc', o=1, r='q'), dict(e='dec', o=2, b={'r': 'q'}, secret=hx(s)), dict(e='mkresp', o=2, n=3, code=code), dict(e='get', o=3), dict(e='get', o=2)]
                ops += [dict(e='add', o=3, t=t, v=hx(v)) for t, v in rattrs(r)]
                ops += [dict(e='enc', o=3, r='w'), dict(e='aresp', b={'r': 'w'}, q={'r': 'q'}, secret=hx(s)),
                        dict(e='aresp', b={'r': 'w', 'm': [['a', 'ffff']]}, q={'r': 'q'}, secret=hx(s)),
                        dict(e='aresp', b={'r': 'w', 'm': [['x', r.randrange(500), 1 << r.randrange(8)]]}, q={'r': 'q'}, secret=hx(s)),
                        dict(e='aresp', b={'r': 'w'}, q={'r': 'q', 'm': [['x', r.randrange(4, 20), 1 << r.randrange(8)]]}, secret=hx(s)),
                        dict(e='aresp', b={'r': 'w'}, q={'r': 'q'}, secret=hx(s[:-1])), dict(e='aresp', b={'r': 'w'}, q={'r': 'q'}, secret=hx(r.choice(near(r, s)))),
                        dict(e='mkresp', o=1, n=4, code=code), dict(e='get', o=4), dict(e='enc', o=4, r='w3'), dict(e='aresp', b={'r': 'w3'}, q={'r': 'q'}, secret=hx(s)),
                        dict(e='dec', o=5, b={'r': 'w'}, secret=hx(s)), dict(e='get', o=5), dict(e='get', o=2)]
                b.session(ops)
    for _ in range(chk.n(300, 5000)):
        s = rsecret(r)
        req = pkt(r.choice(PLAIN), 1, rb(r, 16))
        m = bytearray(sealed(r.choice(RESP), rid(r), req[4:20], area(rattrs(r, 5, 60)), s, pad=rb(r, r.choice([0, 0, 2]))))
        if r.random() < .5: m[r.randrange(len(m))] ^= r.randrange(256)
        ask(bytes(m), req, s)
        if s: ask(bytes(m), req, r.choice(near(r, s)))
    return b.done()

def full(chk, r, b, codes):
    """The library's own packets of (nearly) the largest size under long secrets: encoded, checked, read."""
    for code in codes:
        for n in r.sample([4096, 4095, 4094, 4000, 2048], chk.n(2, 5)):
            for k in r.sample([0, 1, 64, 99, 101, 255, 256, 300, 1000, 4096, 5000], chk.n(4, 11)):
                s, q = rb(r, k), pkt(r.choice(PLAIN), rid(r), ra(r))
                left, avs = n - 20, []
                while left > 0:
                    m = min(left, 255) if left != 256 else 200
                    avs.append([r.randrange(256), hx(rb(r, m - 2))]); left -= m
                ops = [dict(e='dec', o=1, b=hx(q), secret=hx(s)), dict(e='mkresp', o=1, n=2, code=code), dict(e='ext', o=2, avs=avs), dict(e='enc', o=2, r='w')]
                other = s[:-1] + bytes([s[-1] ^ 1]) if s else b'x'
                for x in (s, other): ops += [dict(e='areq', b={'r': 'w'}, secret=hx(x)), dict(e='aresp', b={'r': 'w'}, q=hx(q), secret=hx(x))]
                for at in (20, n - 1, 4095 - 255): ops += [dict(e='areq', b={'r': 'w', 'm': [['x', at, 1]]}, secret=hx(s)), dict(e='aresp', b={'r': 'w', 'm': [['x', at, 1]]}, q=hx(q), secret=hx(s))]
                b.session(ops + [dict(e='dec', o=3, b={'r': 'w'}, secret=hx(s)), dict(e='get', o=3)])

def rand_history(r, n, big=False):
    """A random history of packet operations over a few objects, observed after every step."""
    types = [1, 2, 3] if r.random() < .6 else [r.randrange(256) for _ in range(4)]
    live, nxt, ops = [], 1, []
    k = 0
    while k < n:
        k += 1
        c = r.random()
        if not live or c < .08 and len(live) < 5:
            ops.append(dict(e='new', o=nxt, code=r.choice(CODES), id=r.choice([-1, rid(r)]), secret=hx(rsecret(r)))); live.append(nxt); nxt += 1
            continue
        o = r.choice(live)
        if c < .35: ops.append(dict(e='add', o=o, t=r.choice(types), v=hx(rb(r, r.choice([0, 1, 2, 3, 260 if big else 3])))))
        elif c < .48: ops.append(dict(e='ext', o=o, avs=[[r.choice(types), hx(rb(r, r.randrange(3)))] for _ in range(r.randrange(4))]))
        elif c < .62: ops.append(dict(e='del', o=o, t=r.choice(types)))
        elif c < .66: ops.append(dict(e='setid', o=o, id=rid(r)))
        elif c < .74 and len(live) < 6:
            ops.append(dict(e='clone', o=o, n=nxt)); ops.append(dict(e='eq', o=o, n=nxt)); live.append(nxt); nxt += 1
        elif c < .79 and len(live) < 6: ops.append(dict(e='mkresp', o=o, n=nxt, code=r.choice(CODES))); live.append(nxt); nxt += 1
        elif c < .83: ops.append(dict(e='enc', o=o, r='w'))
        elif c < .86 and len(live) < 6:
            ops += [dict(e='enc', o=o, r='w'), dict(e='dec', o=nxt, b={'r': 'w'}, secret=hx(rsecret(r)))]; live.append(nxt); nxt += 1
        elif c < .9: ops.append(dict(e='look', o=o, t=r.choice(types)))
        elif c < .94: ops.append(dict(e='lookall', o=o, t=r.choice(types)))
        else: ops.append(dict(e='eq', o=o, n=r.choice(live)))
        ops.append(dict(e='get', o=r.choice(live)))
        if r.random() < .2: ops += [dict(e='get', o=x) for x in live]
    ops += [dict(e='get', o=x) for x in live] + [dict(e='enc', o=x, r='w') for x in live]
    return ops

def g_history(chk):
    b = Bag(chk.pid)
    r = chk.rng
    sizes = [60, 130, 254, 255, 256, 257, 300, 513, 1100] + ([2100, 5000] if chk.thorough else [])
    for i in range(chk.n(18, 66)):                      # many attributes
        n, ts = sizes[i % len(sizes)], r.sample(range(256), [1, 2, 5, 30][(i // len(sizes) + i) % 4])
        ops = [dict(e='new', o=1, code=1, id=1, secret='73')]
        ops += [dict(e='add', o=1, t=r.choice(ts), v=hx(rb(r, 1))) for _ in range(n)] if i % 2 else [dict(e='ext', o=1, avs=[[r.choice(ts), hx(rb(r, 1))] for _ in range(n)])]
        ops += [dict(e='clone', o=1, n=2), dict(e='eq', o=1, n=2), dict(e='ext', o=1, avs=[[r.choice(ts), hx(rb(r, 2))] for _ in range(40)]), dict(e='get', o=1), dict(e='get', o=2), dict(e='eq', o=1, n=2)]
        for t in ts[:6 if n < 200 else 2]: ops += [dict(e='lookall', o=1, t=t), dict(e='look', o=1, t=t), dict(e='del', o=1, t=t), dict(e='look', o=1, t=t), dict(e='look', o=2, t=t), dict(e='get', o=1), dict(e='add', o=1, t=t, v='00'), dict(e='lookall', o=1, t=t)]
        b.session(ops + [dict(e='get', o=1), dict(e='get', o=2), dict(e='enc', o=1, r='w'), dict(e='enc', o=2, r='w')])
    for n in (2100, 4200) + ((16500, 33000) if chk.thorough else ()):   # more than any packet can carry
        ops = [dict(e='new', o=1, code=1, id=1, secret='73')] + [dict(e='add', o=1, t=k % 251, v=hx(bytes([k % 256]))) for k in range(n)]
        b.session(ops + [dict(e='get', o=1), dict(e='lookall', o=1, t=(n - 1) % 251), dict(e='clone', o=1, n=2), dict(e='del', o=1, t=3), dict(e='enc', o=1), dict(e='get', o=1), dict(e='get', o=2)])
    for t, a in each_type(r):
        o = r.choice([1, 2])
        b.ops(dict(e='new', o=1, code=1, id=rid(r), secret='73'), dict(e='ext', o=1, avs=[[x, hx(v)] for x, v in a]), dict(e='mkresp', o=1, n=3, code=2), dict(e='get', o=3), dict(e='clone', o=1, n=2),
              dict(e='look', o=1, t=t), dict(e='lookall', o=1, t=t), dict(e='del', o=o, t=t), dict(e='get', o=1), dict(e='get', o=2), dict(e='look', o=o, t=t), dict(e='add', o=o, t=t, v='00'), dict(e='lookall', o=o, t=t), dict(e='get', o=o))
    ids = [0, 1, 2, 127, 128, 129, 254, 255]
    for code in (1, 4, 2):                                  # identifiers one after the other: nothing else may change
        ops = [dict(e='new', o=1, code=code, id=0, secret='73'), dict(e='add', o=1, t=1, v='61'), dict(e='get', o=1)]
        for x in [y for a in ids for c in ids for y in (a, c)] + list(range(0, 256, 5)) + list(range(255, -1, -3)): ops += [dict(e='setid', o=1, id=x), dict(e='get', o=1)]
        b.session(ops)
    for t in (1, 26, r.randrange(256)):                     # what is there already, added once more
        ops = [dict(e='new', o=1, code=1, id=1, secret='73')]
        for n in range(254):
            if n % 32 == 0: ops += [dict(e='get', o=1), dict(e='del', o=1, t=t)]
            v = hx(rb(r, n)); ops += [dict(e='add', o=1, t=t, v=v)] * 2 + [dict(e='ext', o=1, avs=[[t, v], [t, v]]), dict(e='lookall', o=1, t=t)]
        b.session(ops + [dict(e='get', o=1)])
    for t in range(256):                                    # the first of a type, whatever it is
        u = (t + r.randrange(1, 256)) % 256
        for i, vs in enumerate(((b'', b'a'), (b'\0', b'b', b''), (b'\0\0\0\0', b'\0\0\0\1'), (rb(r, 253), b'', b'c'), (b'c', b'c', b''), (rb(r, 3), rb(r, 2)))):
            if i == 0: ops = [dict(e='new', o=1, code=r.choice(CODES[:-2]), id=1, secret='73'), dict(e='add', o=1, t=u, v='')]
            else: ops.append(dict(e='del', o=1, t=t))
            ops += [dict(e='add', o=1, t=t, v=hx(v)) for v in vs] + [dict(e='look', o=1, t=t), dict(e='lookall', o=1, t=t), dict(e='look', o=1, t=u)]
        b.session(ops + [dict(e='get', o=1)])
    for code in CODES:                                      # every answer to every request
        b.session([dict(e='new', o=1, code=code, id=rid(r), secret='7373'), dict(e='add', o=1, t=24, v='01')] + [o for c in CODES for o in (dict(e='mkresp', o=1, n=2, code=c), dict(e='get', o=2), dict(e='enc', o=2, r='w'))] + [dict(e='get', o=1)])
    for i in range(chk.n(250, 4000)):
        b.session(rand_history(chk.rng, chk.rng.choice([5, 15, 40]), big=i % 7 == 0))
    return b.done()

# ---------------------------------------------------------------- values
def pw(r, n, style):
    if n == 0: return b''
    if style == 0: p = bytearray(rb(r, n))
    elif style == 1: p = bytearray(b'p' * n)
    elif style == 2: p = bytearray(n)                       # zeros, last octet not
    else: p = bytearray(r.choice([0, 65]) for _ in range(n))
    if p[-1] == 0: p[-1] = 1 + r.randrange(255)
    return bytes(p)

def pads(r, maxn):
    """Passwords whose last or first octets look like padding, a length, a tag, a terminator."""
    out = []
    for x in range(256):
        for n in (r.randrange(1, 16), 16, 17, maxn - 1, maxn):
            if x: out.append(rb(r, n - 1) + bytes([x]))
            if n > 1: out.append(bytes([x]) + rb(r, n - 2) + b'x')
    for n in range(1, 33):
        out += [rb(r, k) + bytes([n]) * n for k in (1, 16 - n % 16, 32 - n % 16) if k + n <= maxn] + [bytes([n]) + b'p' * n, b'p' * n + b'\n', bytes([32]) * n]
    return out
def tails(r, blocks):
    """Values of whole blocks whose text ends anywhere, the rest being zeros."""
    return [pw(r, n, r.randrange(4)) + bytes(16 * k - n) for k in range(1, blocks + 1)
            for n in sorted({x for j in range(k + 1) for x in (16 * j - 1, 16 * j, 16 * j + 1, 16 * j - r.randrange(2, 15)) if 0 <= x <= 16 * k})]
def aimed(s, m, target):
    """The password whose hidden blocks are the targets, where m hides the first block."""
    out = b''
    for c in target: out, m = out + bytes(x ^ y for x, y in zip(md5(s + m), c)), c
    return out
PWS = [b'password ', b' password', b'password\n', b'pass\r\n', b'Password', b'p\xc3\xa4ss', b'\xff', b'\x01', b'\x10' * 16, b'x' * 15 + b'\x01', b'\x80' * 17, b'\xef\xbb\xbfpw', b'secret', b'0']
def g_userpw(chk):
    r, b = chk.rng, Bag(chk.pid, 60)
    K = 'user_password'
    def both(p, s, a, t=None):
        t = typ(r, 2) if t is None else t
        b.ops(dict(e='mk', kind=K, t=t, val=hx(p), secret=hx(s), auth=hx(a), r='h'),
              dict(e='rd', kind=K, t=t, raw={'r': 'h'}, secret=hx(s), auth=hx(a)))
    for t in range(256):
        for n in (0, r.randrange(1, 129)): both(pw(r, n, 0), rsecret(r), rb(r, 16), t=t)
    for n in range(0, 140):
        for style in range(4 if n <= 130 else 1):
            both(pw(r, n, style), rsecret(r), rb(r, 16))
    for n in (127, 128, 129, 130, 144, 160, 200, 253, 256, 300, 1000): both(b'x' * n, b's', rb(r, 16))
    for p in PWS: both(p, b'secret', rb(r, 16))
    for p in pads(r, 128): both(p, rsecret(r), rb(r, 16))
    for k in range(24):                                     # hidden values that repeat the authenticator, a block, or are all alike
        s, a = rsecret(r), ra(r)
        x, y = rb(r, 16), r.choice([Z16, b'\xff' * 16, a, rb(r, 16)])
        for c in ([a], [a, a], [x, x], [x, a], [a, x, a], [x, y, x], [y] * 8, [x] * 3 + [y] * 2, [a[::-1]]):
            b.ops(dict(e='rd', kind=K, t=2, raw=hx(b''.join(c)), secret=hx(s), auth=hx(a)))
            p = aimed(s, a, c)
            both(p, s, a)
    for p in (b'\x00', b'\x00' * 16, b'a\x00', b'a\x00\x00b', b'\x00' * 16 + b'x', b'x' * 16 + bytes(16) + b'y', b'a' * 15 + b'\x00', b'a' * 17 + b'\x00' * 3, b'\xff' * 128):
        both(p, b'secret', rb(r, 16))
    for p in tails(r, 8): both(p, rsecret(r), rb(r, 16))
    for ln in list(range(1, 130)) + LONG:
        for n in (r.randrange(40), r.randrange(17, 129)): both(pw(r, n, 0), rb(r, ln), rb(r, 16))
    for s in TEXT_SECRETS: both(pw(r, 20, 0), s, rb(r, 16)); both(b'Password', s, b'\x00' * 16); both(b'Password', s, b'\xff' * 16)
    for n in (0, 5, 16, 20, 128, 129):
        for s in (b'', b's'):
            for al in (0, 1, 15, 16, 17, 32):
                b.ops(dict(e='mk', kind=K, t=typ(r, 2), val=hx(b'q' * n), secret=hx(s), auth=hx(rb(r, al))))
    for n in list(range(0, 150)) + [160, 255, 300]:
        for s in (b's', rsecret(r)) + ((b'',) if n % 8 == 0 else ()):
            b.ops(dict(e='rd', kind=K, raw=hx(rb(r, n)), secret=hx(s), auth=hx(rb(r, 16))))
        if n % 16 == 0:
            for al in (0, 15, 17): b.ops(dict(e='rd', kind=K, raw=hx(rb(r, n)), secret='73', auth=hx(rb(r, al))))
    # wrong secret or authenticator: some value, never the plain text by the specification
    for _ in range(20):
        s, a = rsecret(r), rb(r, 16)
        b.ops(dict(e='mk', kind=K, t=typ(r, 2), val=hx(pw(r, r.randrange(1, 60), 0)), secret=hx(s), auth=hx(a), r='h'),
              dict(e='rd', kind=K, raw={'r': 'h'}, secret=hx(s + b'!'), auth=hx(a)), dict(e='rd', kind=K, raw={'r': 'h'}, secret=hx(s), auth=hx(rb(r, 16))),
              dict(e='rd', kind=K, raw={'r': 'h', 'm': [['x', 3, 255]]}, secret=hx(s), auth=hx(a)))
    # through packets and the wire
    ai = [i for i, a in enumerate(ATTRS) if a['kind'] == K][0]
    for n in list(range(0, 36)) + [63, 64, 65, 112, 127, 128, 129, 150]:
        for code in (1, 1, 12, 4):
            s = rsecret(r) if n != 9 else b''
            b.session([dict(e='new', o=1, code=code, id=5, secret=hx(s)), dict(e='add', o=1, t=1, v='6e656d6f'), dict(e='dadd', o=1, a=ai, val=hx(pw(r, n, n % 4)), tag=-1),
                       dict(e='dlook', o=1, a=ai), dict(e='dall', o=1, a=ai), dict(e='get', o=1), dict(e='enc', o=1, r='w'),
                       dict(e='dec', o=2, b={'r': 'w'}, secret=hx(s)), dict(e='dlook', o=2, a=ai), dict(e='dall', o=2, a=ai), dict(e='get', o=2),
                       dict(e='mkresp', o=2, n=3, code=2), dict(e='dadd', o=3, a=ai, val=hx(pw(r, n, 0)), tag=-1), dict(e='dlook', o=3, a=ai)])
    for _ in range(chk.n(150, 4000)): both(pw(r, r.randrange(0, 129), r.randrange(4)), rsecret(r), rb(r, 16))
    return b.done()

def g_tunnelpw(chk):
    r, b = chk.rng, Bag(chk.pid, 60)
    K = 'tunnel_password'
    def both(p, tag, s, a, t=None):
        t = typ(r, 69) if t is None else t
        b.ops(dict(e='mk', kind=K, t=t, val=hx(p), tag=tag, secret=hx(s), auth=hx(a), r='h'),
              dict(e='rd', kind=K, t=t, raw={'r': 'h'}, secret=hx(s), auth=hx(a)))
    for t in range(256):
        for n in (0, r.randrange(1, 241)): both(pw(r, n, 0), r.choice([-1, 0, 5]), rsecret(r), rb(r, 16), t=t)
    for n in range(0, 246):
        for style in ((0, 1) if n > 70 else (0, 1, 2, 3)):
            both(pw(r, n, style), r.choice([-1, 0, 1, 31, 32, 255, r.randrange(256)]), rsecret(r), rb(r, 16))
    for n in (239, 240, 241, 242, 243, 253, 256, 300, 1000): both(b'x' * n, 1, b's', rb(r, 16))
    for tag in range(-1, 256): both(pw(r, 5, 0), tag, b'secret', rb(r, 16))
    for p in PWS: both(p, 1, b'secret', rb(r, 16))
    for p in pads(r, 240): both(p, r.choice([-1, 1, 31]), rsecret(r), rb(r, 16))
    for k in range(24):
        s, a, salt = rsecret(r), ra(r), bytes([r.randrange(128, 256), r.randrange(256)])
        x, y = rb(r, 16), r.choice([Z16, b'\xff' * 16, a, rb(r, 16)])
        for c in ([a], [a, a], [x, x], [x, a], [a, x, a], [x, y, x], [y] * 15, [x] * 3 + [y] * 2, [(salt + a)[:16]], [Z16]):
            b.ops(dict(e='rd', kind=K, t=69, raw=hx(bytes([r.randrange(256)]) + salt + b''.join(c)), secret=hx(s), auth=hx(a)))
    for s in (b's', b'secret'):                             # recovered values of every look
        for p in PWS + pads(r, 240)[::7] + [bytes([n]) + b'q' * n for n in range(0, 240, 9)]:
            a, salt, m, h = rb(r, 16), bytes([r.randrange(128, 256), r.randrange(256)]), None, b''
            m = a + salt
            for k in range(0, len(p), 16): c = bytes(x ^ y for x, y in zip(md5(s + m), (p[k:k + 16] + Z16)[:16])); h, m = h + c, c
            b.ops(dict(e='rd', kind=K, t=69, raw=hx(bytes([r.randrange(32)]) + salt + h), secret=hx(s), auth=hx(a)))
    for p in (b'\x00', b'\x00' * 16, b'a\x00', b'a\x00\x00b', b'\x00' * 16 + b'x', b'x' * 16 + bytes(16) + b'y', b'\xff' * 240): both(p, 3, b'secret', rb(r, 16))
    for p in tails(r, 15): both(p, r.choice([-1, 1, 31]), rsecret(r), rb(r, 16))
    for ln in list(range(1, 80)) + LONG:
        for n in (r.randrange(40), r.randrange(17, 241)): both(pw(r, n, 0), 2, rb(r, ln), rb(r, 16))
    for s in TEXT_SECRETS: both(pw(r, 20, 0), 3, s, rb(r, 16)); both(b'Password', -1, s, b'\x00' * 16); both(b'Password', 0, s, b'\xff' * 16)
    for n in (0, 5, 16, 20, 240, 241):
        for s in (b'', b's'):
            for al in (0, 1, 15, 16, 17, 18, 32):
                b.ops(dict(e='mk', kind=K, t=typ(r, 69), val=hx(b'q' * n), tag=1, secret=hx(s), auth=hx(rb(r, al))))
    for n in list(range(0, 265)):
        for top in (0x80, 0x00):
            raw = bytearray(rb(r, n))
            if n > 1: raw[1] = (raw[1] & 0x7f) | top
            for s in (b's',) + ((b'',) if n % 16 == 3 else ()):
                b.ops(dict(e='rd', kind=K, raw=hx(raw), secret=hx(s), auth=hx(rb(r, 16))))
            if n % 16 == 3:
                for al in (0, 15, 17, 18): b.ops(dict(e='rd', kind=K, raw=hx(raw), secret='73', auth=hx(rb(r, al))))
    for salt in [0x8000, 0x8001, 0x80ff, 0x8100, 0xff00, 0xff7f, 0xff80, 0xffff, 0xfffe, 0xc000, 0xa000] + r.sample(range(0x8000, 0x10000), chk.n(300, 8000)):
        for n in (1, 16 * r.randrange(1, 15)): b.ops(dict(e='rd', kind=K, raw=hx(bytes([r.randrange(256)]) + salt.to_bytes(2, 'big') + rb(r, n + 15 if n == 1 else n)), secret='7365', auth=hx(rb(r, 16))))
    for x in range(256): b.ops(dict(e='rd', kind=K, raw=hx(bytes([x ^ 85, x]) + rb(r, 17)), secret='73', auth=hx(rb(r, 16))))
    for _ in range(20):
        s, a = rsecret(r), rb(r, 16)
        b.ops(dict(e='mk', kind=K, t=typ(r, 69), val=hx(pw(r, r.randrange(1, 60), 0)), tag=1, secret=hx(s), auth=hx(a), r='h'),
              dict(e='rd', kind=K, raw={'r': 'h'}, secret=hx(s + b'!'), auth=hx(a)), dict(e='rd', kind=K, raw={'r': 'h', 'm': [['x', 0, 3], ['x', 2, 255]]}, secret=hx(s), auth=hx(a)))
    ai = [i for i, a in enumerate(ATTRS) if a['kind'] == K][0]
    for n in list(range(0, 36)) + [63, 64, 65, 127, 128, 129, 239, 240, 241, 250]:
        s = rsecret(r) if n != 9 else b''
        b.session([dict(e='new', o=1, code=1, id=5, secret=hx(s)), dict(e='dadd', o=1, a=ai, val=hx(pw(r, n, n % 4)), tag=r.choice([-1, 1, 31])),
                   dict(e='dadd', o=1, a=ai, val=hx(pw(r, (n * 7) % 240, 0)), tag=2),
                   dict(e='dlook', o=1, a=ai), dict(e='dall', o=1, a=ai), dict(e='get', o=1), dict(e='enc', o=1, r='w'),
                   dict(e='dec', o=2, b={'r': 'w'}, secret=hx(s)), dict(e='dlook', o=2, a=ai), dict(e='dall', o=2, a=ai), dict(e='get', o=2),
                   dict(e='mkresp', o=2, n=3, code=2), dict(e='dadd', o=3, a=ai, val=hx(pw(r, n, 0)), tag=7), dict(e='dlook', o=3, a=ai)])
    for _ in range(chk.n(150, 4000)): both(pw(r, r.randrange(0, 241), r.randrange(4)), r.randrange(-1, 256), rsecret(r), rb(r, 16))
    return b.done()

U32S = sorted(set([0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 2**24 - 1, 2**24, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1] + [1 << i for i in range(32)] + [(1 << i) - 1 for i in range(33)]))

def g_fixed(chk):
    r, b = chk.rng, Bag(chk.pid, 80)
    def both(kind, val, t=None):
        t = r.randrange(256) if t is None else t
        b.ops(dict(e='mk', kind=kind, t=t, val=hx(val), r='h'), dict(e='rd', kind=kind, t=t, raw={'r': 'h'}))
    for x in U32S + [r.randrange(2**32) for _ in range(chk.n(100, 3000))]:
        for k in ('integer', 'ipaddr', 'date'): both(k, x.to_bytes(4, 'big'))
    for x in [0, 86399, 86400, 951782400, 951868800, 1709164800, 2147483647, 2147483648, 4294967295, 4107542400, 1234567890]: both('date', x.to_bytes(4, 'big'))
    for x in sorted(set([0, 1, 255, 256, 32767, 32768, 65534, 65535] + [1 << i for i in range(16)] + (list(range(0, 65536)) if chk.thorough else [r.randrange(65536) for _ in range(200)]))):
        both('short', x.to_bytes(2, 'big'))
    for _ in range(chk.n(100, 1000)): both('ipv6addr', rb(r, 16))
    for i in range(16): both('ipv6addr', bytes(1 << (i % 8) if j == i else 0 for j in range(16)))
    for v in (bytes(16), bytes(15) + b'\x01', b'\xff' * 16, bytes(10) + b'\xff\xff\x7f\x00\x00\x01', b'\xfe\x80' + bytes(14)): both('ipv6addr', v)
    for i in range(4): both('ipaddr', bytes(200 + i if j == i else 0 for j in range(4)))
    for n in range(0, 40):
        for _ in range(3):
            both('ipv4prefix', rb(r, n)); both('ipv6prefix', rb(r, n))
        both('ipv6prefix', bytes(n)); both('ipv4prefix', bytes(n))
    for n in range(17):                                     # prefixes and addresses that end, begin or are interrupted by zeros or ones
        for k in range(n + 1):
            for x in (bytes(k) + bytes(r.randrange(1, 255) for _ in range(n - k)), bytes(r.randrange(1, 255) for _ in range(n - k)) + bytes(k), bytes([255]) * k + bytes(n - k), b'\x20\x01' * (n // 2) + bytes(n % 2)):
                both('ipv6prefix', x)
                if n == 16: both('ipv6addr', x)
                if n == 4: both('ipv4prefix', x); both('ipaddr', x)
    for v in ('00000000000000000000ffff', '000000000000000000000000', '0064ff9b0000000000000000', '200200000000000000000000', '20010000000000000000ffff', 'ff0200000000000000000001', 'fe8000000000000000000000', 'fc0000000000000000000000', '20010db80000000000000000'):
        for w in ('7f000001', 'c0a80110', 'ffffffff', '00000001'): both('ipv6addr', bytes.fromhex(v + w))
    for v in ('7f000001', 'e0000001', 'a9fe0101', 'fffffffe', 'ffffffff', '0a000000', 'c0000201', '00ffffff', 'f0000000'): both('ipaddr', bytes.fromhex(v)); both('ipv4prefix', bytes.fromhex(v))
    for k in ('integer', 'short', 'ipaddr', 'ipv6addr', 'date', 'ipv4prefix', 'ipv6prefix'):
        for n in list(range(0, 40)) + [64, 128, 253, 254, 300]:
            for raw in (rb(r, n), bytes(n), b'\xff' * n): b.ops(dict(e='rd', kind=k, raw=hx(raw)))
    for plen in (0, 1, 7, 8, 9, 16, 24, 31, 32, 33, 63, 64, 65, 120, 127, 128, 129, 255):   # whatever the header says, the rest is the prefix
        for n in range(17): b.ops(dict(e='rd', kind='ipv6prefix', raw=hx(bytes([r.choice([0, 0, 1, 255]), plen]) + rb(r, n))))
        b.ops(*[dict(e='rd', kind='ipv4prefix', raw=hx(bytes([z, plen]) + x)) for z in (0, 1) for x in (rb(r, 4), b'\xff' * 4, bytes(4))])
    # through packets, by one attribute of each kind
    for k in ('integer', 'short', 'ipaddr', 'ipv6addr', 'date', 'ipv4prefix', 'ipv6prefix'):
        ai = [i for i, a in enumerate(ATTRS) if a['kind'] == k][0]
        for _ in range(chk.n(4, 40)):
            n = {'integer': 4, 'short': 2, 'ipaddr': 4, 'ipv6addr': 16, 'date': 4, 'ipv4prefix': 4, 'ipv6prefix': r.randrange(17)}[k]
            b.session([dict(e='new', o=1, code=r.choice([1, 2, 4]), id=3, secret='7373'), dict(e='dadd', o=1, a=ai, val=hx(rb(r, n)), tag=-1), dict(e='dadd', o=1, a=ai, val=hx(rb(r, n)), tag=-1),
                       dict(e='enc', o=1, r='w'), dict(e='dec', o=2, b={'r': 'w'}, secret='7373'), dict(e='dlook', o=2, a=ai), dict(e='dall', o=2, a=ai), dict(e='get', o=2)])
    return b.done()

TEXTS = ['', 'a', '\ufeff', '\ufeffnemo', 'nemo\ufeff', 'nemo ', ' nemo', 'nemo\n', 'nemo\r\n', '\tnemo', 'nemo\0', '\0nemo', 'nemo\0\0', 'NEMO', 'Nemo', 'e\u0301', '\u00e9', '\u0130', 'Stra\u00dfe', '\u2028', '\ufffd', '%s', '{}', '"', '\\n',
         '\u200b', '\u00a0', '\ufffe', 'nemo', 'é', '漢字', '\U0001F600', '\x00', '\x01x', '\x1fy', ' z', '\x7f', 'a\x00b', '\u0080', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff', '\ud7ff', '\ue000', 'x' * 252, 'x' * 253, 'é' * 126, '日' * 84]
BADUTF = ['80', 'bf', 'c0', 'c1', 'c080', 'c1bf', 'c2', 'c241', 'c2c2', 'e0', 'e080', 'e08080', 'e09fbf', 'e0a0', 'e0a041', 'eda080', 'edbfbf', 'ee80', 'ef', 'f0', 'f0808080', 'f08fbfbf',
          'f0908080', 'f09080', 'f4908080', 'f48fbfbf', 'f5808080', 'f8', 'ff', 'fe', '61ff', 'ff61', 'c3a9ff', '61c3', 'f09f98', 'e6bc', 'f09f9841', 'e28228', 'c328']

def rtext(r, n):
    out = ''
    while len(out.encode()) < n:
        c = r.choice([r.randrange(32, 127), r.randrange(0, 32), r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)])
        out += chr(c)
    while len(out.encode()) > n: out = out[:-1]
    return out.encode()

def g_text(chk):
    r, b = chk.rng, Bag(chk.pid, 80)
    def both(kind, val, tag=-1):
        b.ops(dict(e='mk', kind=kind, t=r.randrange(256), val=hx(val), tag=tag, r='h'), dict(e='rd', kind=kind, raw={'r': 'h'}))
    for s in TEXTS:
        e = s.encode('utf-8', 'surrogatepass')
        try: e.decode()
        except UnicodeDecodeError: continue
        both('string', e); both('octets', e)
        for tag in (-1, 0, 1, 2, 31, 32, 33, 64, 127, 128, 255): both('tagged_string', e, tag)
    for h in BADUTF:
        b.ops(dict(e='rd', kind='string', raw=h))
        for pre in ('', '00', '01', '1f', '20', '41', 'c3a9'): b.ops(dict(e='rd', kind='tagged_string', raw=pre + h), dict(e='rd', kind='string', raw=pre + h))
    for x in range(256):
        b.ops(dict(e='rd', kind='string', raw='%02x' % x), dict(e='rd', kind='tagged_string', raw='%02x' % x), dict(e='rd', kind='tagged_string', raw='%02x41' % x),
              dict(e='rd', kind='tagged_integer', raw='%02x01020304' % x), dict(e='tag', v=x, unused=False), dict(e='rd', kind='octets', raw='%02x00' % x))
        both('tagged_integer', U32S[x % len(U32S)].to_bytes(4, 'big'), x); both('tagged_string', b'text', x)
    b.ops(dict(e='tag', v=0, unused=True), dict(e='tag', v=9, unused=True))
    for y in range(256):
        for x in ((0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4) if not chk.thorough else range(0xc0, 0x100)):
            b.ops(dict(e='rd', kind='string', raw='%02x%02x' % (x, y)), dict(e='rd', kind='string', raw='%02x%02x80' % (x, y)), dict(e='rd', kind='string', raw='%02x%02x8080' % (x, y)))
    for x in U32S:
        both('tagged_integer', x.to_bytes(4, 'big'), -1); both('tagged_integer', x.to_bytes(4, 'big'), r.randrange(32))
    for n in list(range(0, 20)) + [253, 300]:
        for t in (0, 1, 31, 32, 200):
            raw = (bytes([t]) + rb(r, n))[:n]
            b.ops(dict(e='rd', kind='tagged_integer', raw=hx(raw)))
    b.ops(dict(e='rd', kind='tagged_string', raw=''), dict(e='rd', kind='string', raw=''), dict(e='rd', kind='octets', raw=''))
    for _ in range(chk.n(150, 3000)):
        t = rtext(r, r.choice([1, 3, 8, 40, 252]))
        both('string', t); both('tagged_string', t, r.randrange(-1, 256)); both('octets', rb(r, r.randrange(40)))
        m = bytearray(t)
        if m: m[r.randrange(len(m))] = r.randrange(256)
        b.ops(dict(e='rd', kind='string', raw=hx(m)), dict(e='rd', kind='tagged_string', raw=hx(m)))
    for n in range(0, 254):
        both('string', rtext(r, n)); both('octets', rb(r, n))
        if n < 253: both('tagged_string', rtext(r, n), r.choice([-1, 0, 1, 31]))
    for n in (254, 255, 256, 257, 511, 512, 1000, 1024, 1025, 2048, 4096, 4097, 5000, 16384):   # longer than a packet can carry: kept as given
        v = rtext(r, n)
        for k, tag in (('string', -1), ('octets', -1), ('tagged_string', -1), ('tagged_string', 5)): b.ops(dict(e='mk', kind=k, t=r.randrange(256), val=hx(v), tag=tag))
    # malformed at the very end, at the start or within, for every length
    for n in list(range(1, 20)) + [31, 32, 63, 64, 127, 128, 251, 252, 253] + (list(range(20, 254)) if chk.thorough else r.sample(range(20, 254), 20)):
        for w in (b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xe2', b'\xff', b'\x80', b'\xed\xa0\x80'):
            if len(w) > n: continue
            t = rtext(r, n - len(w)) if r.random() < .5 else b'a' * (n - len(w))
            k = len(t) if r.random() < .6 else r.choice([0, len(t), len(t) // 2])
            v = t[:k] + w + t[k:]
            b.ops(dict(e='rd', kind='string', raw=hx(v)), dict(e='rd', kind='tagged_string', raw=hx((r.choice([b'', b'\x01', b'\x00']) + v)[:253])))
    for k in ('string', 'tagged_string', 'tagged_integer', 'octets'):
        ai = [i for i, a in enumerate(ATTRS) if a['kind'] == k][0]
        for tag in (-1, 1, 31):
            v = lambda: rb(r, 4) if k == 'tagged_integer' else rtext(r, r.choice([1, 8, 200]))
            b.session([dict(e='new', o=1, code=r.choice([1, 2, 4]), id=3, secret='7373'), dict(e='dadd', o=1, a=ai, val=hx(v()), tag=tag), dict(e='dadd', o=1, a=ai, val=hx(v()), tag=tag),
                       dict(e='enc', o=1, r='w'), dict(e='dec', o=2, b={'r': 'w'}, secret='7373'), dict(e='dlook', o=2, a=ai), dict(e='dall', o=2, a=ai), dict(e='get', o=2)])
    return b.done()

def g_vsa(chk):
    r, b = chk.rng, Bag(chk.pid, 60)
    def one(vendor, vtype, tag, val):
        b.ops(dict(e='vsa', vendor=hx(vendor), vtype=vtype, tag=tag, val=hx(val), r='m'), dict(e='new', o=1, code=2, id=1, secret='73'), dict(e='add', o=1, t=26, v={'r': 'm'}),
              dict(e='enc', o=1, r='w'), dict(e='dec', o=2, b={'r': 'w'}, secret='73'), dict(e='get', o=2))
    for n in range(0, 247):
        t = rtext(r, n)
        one(rb(r, 4), r.randrange(256), r.randrange(256), t) ; one(rb(r, 4), r.randrange(256), -1, t)
        if len(t) + 7 <= 253: one(rb(r, 4), r.randrange(256), 0, t)
    one(bytes(4), 1, -1, b'y' * 247); one(b'\x00\x00\x00\x09', 1, -1, b'shell:priv-lvl=15')
    for s in TEXTS:
        try: e = s.encode()
        except UnicodeEncodeError: continue
        if len(e) <= 240: one(b'\x00\x00\x00\x09', 1, -1, e); one(b'\x00\x00\x37\x2a', 1, r.choice([0, 1, 31, 32, 255]), e)
    for x in range(256): one(b'\x00\x00\x00\x09', x, -1, b'v'); one(b'\x00\x00\x00\x09', 1, x, b'v')
    for v in U32S: one(v.to_bytes(4, 'big'), 3, r.choice([-1, 5]), b'val')
    for _ in range(chk.n(60, 1500)): one(rb(r, 4), r.randrange(256), r.choice([-1, r.randrange(256)]), rtext(r, r.randrange(0, 240)))
    return b.done()

# ---------------------------------------------------------------- dictionaries
def rval(r, a, good=True):
    k = a['kind']
    if k in ('string', 'tagged_string'): return rtext(r, r.choice([1, 4, 9, 30]))
    if k in ('octets', 'vsa'): return rb(r, r.choice([0, 1, 5, 40]))
    if k == 'concat': return rb(r, r.choice([1, 100, 253, 254, 506, 507, 600]))
    if k == 'fixed': return rb(r, a['len'] if good else r.choice([a['len'] - 1, a['len'] + 1, 0]))
    if k in ('integer', 'ipaddr', 'date', 'tagged_integer'): return rb(r, 4)
    if k == 'short': return rb(r, 2)
    if k == 'ipv6addr': return rb(r, 16)
    if k == 'ipv4prefix': return rb(r, 4 if good else r.choice([0, 3, 5, 6, 16]))
    if k == 'ipv6prefix': return rb(r, r.randrange(17) if good else r.choice([17, 18, 32]))
    if k == 'user_password': return pw(r, r.choice([0, 1, 16, 20, 128]) if good else 129, 0)
    if k == 'tunnel_password': return pw(r, r.choice([0, 1, 16, 20, 240]) if good else 241, 0)
    raise KeyError(k)
def specials(r, a):
    """Values of the attribute's type that a conversion could take for something else."""
    k = a['kind']
    ints = lambda n: [(x % (1 << 8 * n)).to_bytes(n, 'big') for x in list(range(0, 4)) + [9, 10, 31, 32, 127, 128, 255, 256, 65535, 65536, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1, -1, -2, 0x01000000, 0x20000000, 0x00ff00ff]]
    if k in ('string', 'tagged_string', 'octets', 'vsa', 'user_password', 'tunnel_password'):
        out = [t.encode() for t in TEXTS if len(t.encode()) <= 120] + [b'\x01', b'\x1f\x1f', b'\x00\x00', b'0', b'x' * 120]
        if k in ('octets', 'vsa'): out += [b'\xff\xff', b'\x80', bytes(range(253)), b'\x00' * 253, b'\xef\xbb\xbfa', b'\xff\xfea\x00']
        return out
    if k == 'concat': return [b'', b'\x00', b'\x00' * 253, b'\x00' * 254, b' a ', b'a\x00', b'\xff' * 506, bytes(range(256)) * 3]
    if k == 'fixed': return [b'\x00' * a['len'], b'\xff' * a['len'], b'\x00' * (a['len'] - 1) + b'\x01', b'\x01' + b'\x00' * (a['len'] - 1)]
    if k == 'short': return ints(2)
    if k == 'ipv6addr': return [b'\x00' * 16, b'\xff' * 16, b'\x00' * 15 + b'\x01', b'\x00' * 10 + b'\xff\xff' + rb(r, 4), b'\x00' * 12 + rb(r, 4), b'\xfe\x80' + rb(r, 14), b'\xff\x02' + b'\x00' * 13 + b'\x01', b'\x20\x01\x0d\xb8' + rb(r, 12), b'\xfc' + rb(r, 15)]
    if k == 'ipv6prefix': return [b'\x00' * n for n in range(17)] + [b'\xff' * n for n in range(17)] + [b'\x00' * 10 + b'\xff\xff' + rb(r, 4), rb(r, 8) + b'\x00' * 8]
    out = ints(4)
    if k in ('ipaddr', 'ipv4prefix'): out += [bytes(x) for x in ((127, 0, 0, 1), (10, 0, 0, 1), (192, 168, 0, 0), (224, 0, 0, 1), (255, 255, 255, 254), (169, 254, 1, 1), (0, 0, 0, 1), (1, 0, 0, 0))]
    return out
def malformed(r, a):
    """Values that are no value of the attribute's type, or nearly so (which, is for the specification to say)."""
    k = a['kind']
    if k == 'string': return [b'\xff', b'ok\xc3', b'\xed\xa0\x80', b'']
    if k == 'tagged_string': return [b'', b'\x01\xff', b'\x01', b'abc', b'\x20a']
    if k == 'tagged_integer': return [b'', b'\x01\0\0', b'\x01\0\0\0\0', b'\x20\0\0\1', b'\0\0\0\1']
    if k == 'tunnel_password': return [b'', b'\x01', b'\x01\x80\0', b'\x01' + rb(r, 18), b'\x01\x80\0' + rb(r, 15), rb(r, 35)]
    if k == 'user_password': return [b'', rb(r, 15), rb(r, 17), rb(r, 16), rb(r, 144)]
    if k == 'fixed': return [b'', rb(r, a['len'] - 1), rb(r, a['len'] + 1)]
    if k == 'short': return [b'', rb(r, 1), rb(r, 3), rb(r, 4)]
    if k == 'ipv6addr': return [b'', rb(r, 4), rb(r, 15), rb(r, 17)]
    if k in ('ipv4prefix', 'ipv6prefix'): return [b'', b'\0', rb(r, 2), b'\0\x21' + rb(r, 4), b'\0\x81' + rb(r, 16), rb(r, 5), rb(r, 19)]
    if k in ('octets', 'vsa', 'concat'): return [b'', b'\xff']
    return [b'', rb(r, 3), rb(r, 5), rb(r, 8)]
def rtag(r, a): return r.choice([-1, 1, 2, 31]) if a['kind'] in ('tagged_string', 'tagged_integer', 'tunnel_password') else -1

def dict_sessions(r, attrs, nconst, pid, rounds):
    b = Bag(pid, 60)
    for i in range(0, nconst): b.ops(dict(e='dconst', a=i))
    for i in range(len(attrs)): b.ops(dict(e='dnum', a=i))
    allt = [[t, hx(bytes([t, 255 - t]))] for t in range(256)]
    for i, a in enumerate(attrs):
        # all other attributes present: only this one is read and deleted
        b.session([dict(e='new', o=1, code=1, id=1, secret='73656372'), dict(e='ext', o=1, avs=[x for x in allt if x[0] != a['num']]), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i),
                   dict(e='ddel', o=1, a=i), dict(e='get', o=1), dict(e='dadd', o=1, a=i, val=hx(rval(r, a)), tag=rtag(r, a)), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i),
                   dict(e='get', o=1), dict(e='ddel', o=1, a=i), dict(e='get', o=1)])
        # values of every look, alone and next to one another
        ops = [dict(e='new', o=1, code=1, id=7, secret='73656372')]
        for n, v in enumerate(specials(r, a)):
            if n % 6: ops.append(dict(e='ddel', o=1, a=i))
            ops += [dict(e='dadd', o=1, a=i, val=hx(v), tag=rtag(r, a)), dict(e='dall', o=1, a=i) if n % 6 == 0 else dict(e='dlook', o=1, a=i)]
        b.session(ops + [dict(e='dlook', o=1, a=i), dict(e='get', o=1)])
        # many values; a malformed one first, last or among them
        for k in range(max(1, rounds // 2)):
            wrong = malformed(r, a)
            ops = [dict(e='new', o=1, code=1, id=7, secret='73656372')]
            m = r.choice([3, 5, 9, 17, 40]) if a['kind'] not in ('user_password', 'tunnel_password') else 5
            for n in range(m):
                ops.append(dict(e='dadd', o=1, a=i, val=hx(rval(r, a)[:253]), tag=rtag(r, a)))
                if n % 4 == 1: ops.append(dict(e='add', o=1, t=r.choice([x for x in range(256) if x != a['num']]), v=hx(rb(r, 4))))
            ops += [dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i), dict(e='add', o=1, t=a['num'], v=hx(r.choice(wrong))), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i), dict(e='ddel', o=1, a=i)]
            for w in wrong:
                ops += [dict(e='add', o=1, t=a['num'], v=hx(w)), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i), dict(e='dadd', o=1, a=i, val=hx(rval(r, a)), tag=rtag(r, a)), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i), dict(e='ddel', o=1, a=i)]
            ops += [dict(e='dadd', o=1, a=i, val=hx(rval(r, a)), tag=rtag(r, a)), dict(e='add', o=1, t=a['num'], v=hx(r.choice(wrong))), dict(e='dadd', o=1, a=i, val=hx(rval(r, a)), tag=rtag(r, a)), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i)]
            b.session(ops)
        for k in range(rounds):
            ops = [dict(e='new', o=1, code=r.choice([1, 2, 4, 5]), id=rid(r), secret=hx(rsecret(r)))]
            ops += [dict(e='add', o=1, t=t, v=hx(v)) for t, v in rattrs(r, 2) if t != a['num']]
            ops += [dict(e='dadd', o=1, a=i, val=hx(rval(r, a)), tag=rtag(r, a)), dict(e='dlook', o=1, a=i), dict(e='dadd', o=1, a=i, val=hx(rval(r, a)), tag=rtag(r, a)), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i)]
            if a['kind'] in ('fixed', 'ipv4prefix', 'ipv6prefix', 'user_password', 'tunnel_password'):
                ops += [dict(e='dadd', o=1, a=i, val=hx(rval(r, a, False)), tag=rtag(r, a)), dict(e='dall', o=1, a=i)]
            if a['kind'] == 'concat':
                ops += [dict(e='dadd', o=1, a=i, val=hx(rb(r, n)), tag=-1) for n in (252, 253, 254, 0, 759, 760)] + [dict(e='dlook', o=1, a=i)]
                for n in (r.choice([1012, 3000, 4047, 4048]), 4049, 4076, r.choice([5000, 8192, 65535, 65536, 70000])):
                    ops += [dict(e='ddel', o=1, a=i), dict(e='dadd', o=1, a=i, val=hx(rb(r, n)), tag=-1), dict(e='dlook', o=1, a=i), dict(e='enc', o=1, r='w'), dict(e='dec', o=2, b={'r': 'w'}, secret='73'), dict(e='dlook', o=2, a=i)]
                ops.append(dict(e='ddel', o=1, a=i))
            j = r.randrange(len(attrs))
            ops += [dict(e='dadd', o=1, a=j, val=hx(rval(r, attrs[j])), tag=rtag(r, attrs[j])), dict(e='dlook', o=1, a=j), dict(e='dlook', o=1, a=i)]
            ops += [dict(e='add', o=1, t=a['num'], v=hx(r.choice([b'', b'\x00', rb(r, 3), rb(r, 5), b'\xff\xfe', rb(r, 17), rb(r, 19)]))), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i), dict(e='get', o=1)]
            ops += [dict(e='enc', o=1, r='w'), dict(e='dec', o=2, b={'r': 'w'}, secret=hx(b'other')), dict(e='dlook', o=2, a=i), dict(e='ddel', o=1, a=i), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i), dict(e='get', o=1)]
            # a malformed value first
            ops += [dict(e='add', o=1, t=a['num'], v=hx(r.choice([b'', rb(r, 1), rb(r, 3)]))), dict(e='dadd', o=1, a=i, val=hx(rval(r, a)), tag=rtag(r, a)), dict(e='dlook', o=1, a=i), dict(e='dall', o=1, a=i)]
            b.session(ops)
    return b.done()

def g_dict(chk): return dict_sessions(chk.rng, ATTRS, len(CONSTS), chk.pid, chk.n(2, 20))

# ---------------------------------------------------------------- secrets in texts
def g_secret(chk):
    r, b = chk.rng, Bag(chk.pid)
    for k in range(chk.n(60, 800)):
        secrets = [rsecret(r), rsecret(r), b'*redacted*', b'xyzzy5461', bytes([0]), b'']
        r.shuffle(secrets)
        secrets = secrets[:4]
        w = pkt(r.choice(CODES + [77]), rid(r), ra(r), area(rattrs(r)))
        w2 = pkt(1, rid(r), ra(r), area([(1, b'nemo')]))
        ops, ident, t, v, code = [], rid(r), r.randrange(256), rb(r, 3), r.choice(CODES)
        for i, s in enumerate(secrets):
            o = 10 * i + 1
            ops += [dict(e='dec', o=o, b=hx(w), secret=hx(s)), dict(e='dbg', o=o), dict(e='dec', o=o + 1, b=hx(w2), secret=hx(s)), dict(e='dbg', o=o + 1),
                    dict(e='clone', o=o, n=o + 2), dict(e='add', o=o + 2, t=t, v=hx(v)), dict(e='dbg', o=o + 2), dict(e='setid', o=o + 2, id=ident), dict(e='dbg', o=o + 2),
                    dict(e='mkresp', o=o, n=o + 3, code=code), dict(e='dbg', o=o + 3), dict(e='del', o=o + 2, t=t), dict(e='dbg', o=o + 2), dict(e='dbg', o=o)]
        # a new packet against one decoded from its encoding under another secret
        ops += [dict(e='new', o=90, code=1, id=-1, secret=hx(secrets[0])), dict(e='add', o=90, t=1, v='61'), dict(e='dbg', o=90), dict(e='enc', o=90, r='w'), dict(e='dec', o=91, b={'r': 'w'}, secret=hx(secrets[1])),
                dict(e='dbg', o=91), dict(e='dec', o=92, b={'r': 'w'}, secret=hx(secrets[2])), dict(e='dbg', o=92)]
        b.session(ops)
    for k in range(chk.n(20, 200)):
        ops, auth = [], rb(r, 16)
        inner = [dict(e='dec', b=hx(rb(r, 5))), dict(e='dec', b=hx(pkt(1, 1, auth, length=5))), dict(e='dec', b=hx(pkt(1, 1, auth, length=5000))), dict(e='dec', b=hx(pkt(1, 1, auth, b'\x01\x01'))),
                 dict(e='dec', b=hx(pkt(1, 1, auth, b'\x01'))), dict(e='dec', b=hx(pkt(1, 1, auth, length=30))),
                 dict(e='encdec', b=hx(pkt(1, 1, auth)), v='00' * 254), dict(e='encdec', b=hx(pkt(13, 1, auth)), v='00'), dict(e='encdec', b=hx(pkt(255, 1, auth)), v='00'), dict(e='encdec', b=hx(pkt(0, 1, auth)), v='00'),
                 dict(e='mk', kind='user_password', val='61' * 129, auth=hx(auth)), dict(e='mk', kind='user_password', val='61', auth=hx(auth[:9])),
                 dict(e='mk', kind='tunnel_password', val='61' * 241, tag=1, auth=hx(auth)), dict(e='mk', kind='tunnel_password', val='61', tag=1, auth=hx(auth + auth)),
                 dict(e='rd', kind='user_password', raw='00' * 15, auth=hx(auth)), dict(e='rd', kind='user_password', raw='00' * 129, auth=hx(auth)), dict(e='rd', kind='user_password', raw='00' * 16, auth=''),
                 dict(e='rd', kind='tunnel_password', raw='00' * 19, auth=hx(auth)), dict(e='rd', kind='tunnel_password', raw='ff' * 18, auth=hx(auth)), dict(e='rd', kind='tunnel_password', raw='ff' * 19, auth='00'),
                 dict(e='rd', kind='tunnel_password', raw='0180' + hx(rb(r, 33)), auth=hx(auth)), dict(e='rd', kind='user_password', raw=hx(rb(r, 32)), auth=hx(auth))]
        for s in (rsecret(r), rsecret(r), b'xyzzy5461', b'\xff' * 20, b'', b'\0', rb(r, r.choice(LONG))):
            for i, x in enumerate(inner):
                if x['e'] == 'rd' and i >= len(inner) - 2: continue
                if not s and x['e'] not in ('dec', 'encdec'): continue      # attribute operations refuse an empty secret
                y = dict(x); y['secret'] = hx(s)
                ops.append(dict(e='errtxt', key='k%d' % i, op=y))
        b.session(ops)
    return b.done()

# ---------------------------------------------------------------- both back ends
def g_backend(chk):
    """Deterministic sessions that use every operation which depends on the crypto back end."""
    r, b = chk.rng, Bag(chk.pid, 60)
    for code in CODES:
        for k in range(chk.n(8, 80)):
            s = rsecret(r) if k else b''
            w = pkt(code, rid(r), ra(r), area(rattrs(r, 6, r.choice([10, 253])) + ([(79, rb(r, 253))] * r.choice([3, 4, 8, 14]) if k == 3 else [])))
            b.session([dict(e='dec', o=1, b=hx(w), secret=hx(s)), dict(e='enc', o=1, r='w'), dict(e='areq', b={'r': 'w'}, secret=hx(s)), dict(e='areq', b=hx(w), secret=hx(s)),
                       dict(e='mkresp', o=1, n=2, code=r.choice(RESP)), dict(e='add', o=2, t=18, v=hx(rb(r, 9))), dict(e='enc', o=2, r='x'), dict(e='aresp', b={'r': 'x'}, q=hx(w), secret=hx(s)),
                       dict(e='aresp', b={'r': 'x', 'm': [['x', r.randrange(99), 4]]}, q=hx(w), secret=hx(s)), dict(e='aresp', b={'r': 'x', 'm': [['a', '00']]}, q=hx(w), secret=hx(s)),
                       dict(e='add', o=2, t=1, v='00' * r.choice([253, 254])), dict(e='enc', o=2)])
    for c in (1, 4, 12, 40, 43):                            # every answer, bare and not
        for code in CODES:
            w, s = pkt(c, rid(r), ra(r)), rsecret(r) or b's'
            b.ops(dict(e='dec', o=1, b=hx(w), secret=hx(s)), dict(e='mkresp', o=1, n=2, code=code), dict(e='enc', o=2, r='x'), dict(e='aresp', b={'r': 'x'}, q=hx(w), secret=hx(s)), dict(e='areq', b={'r': 'x'}, secret=hx(s)),
                  dict(e='add', o=2, t=r.randrange(256), v=hx(rb(r, r.choice([0, 1, 16])))), dict(e='enc', o=2, r='x'), dict(e='aresp', b={'r': 'x'}, q=hx(w), secret=hx(s)), dict(e='dec', o=3, b={'r': 'x'}, secret=hx(s)), dict(e='enc', o=3))
    full(chk, r, b, [1, 2, 4, 11, 40, 43])
    for n in range(0, 135):
        s, a = rsecret(r), rb(r, 16)
        b.ops(dict(e='mk', kind='user_password', t=typ(r, 2), val=hx(rb(r, n)), secret=hx(s), auth=hx(a), r='h'), dict(e='rd', kind='user_password', raw={'r': 'h'}, secret=hx(s), auth=hx(a)),
              dict(e='rd', kind='user_password', raw=hx(rb(r, n)), secret=hx(s), auth=hx(a)))
    for n in range(0, 250):
        s, a, raw = rsecret(r), rb(r, 16), bytearray(rb(r, n))
        if n > 1 and r.random() < .9: raw[1] |= 0x80
        b.ops(dict(e='rd', kind='tunnel_password', raw=hx(raw), secret=hx(s), auth=hx(a)))
    for blocks in range(1, 16):
        for _ in range(3):
            b.ops(dict(e='rd', kind='tunnel_password', raw=hx(bytes([r.randrange(256), r.randrange(128, 256)]) + rb(r, 1 + 16 * blocks)), secret=hx(rsecret(r)), auth=hx(rb(r, 16))))
    for k in ('user_password', 'tunnel_password'):
        for s in ('', '73'):
            for al in (0, 15, 16, 17):
                b.ops(dict(e='rd', kind=k, raw='ff' * 19, secret=s, auth='00' * al), dict(e='rd', kind=k, raw='ff' * 16, secret=s, auth='00' * al))
                if k == 'user_password': b.ops(dict(e='mk', kind=k, t=1, val='61', secret=s, auth='00' * al), dict(e='mk', kind=k, t=1, val='61' * 129, secret=s, auth='00' * al))
    # whatever the other checks do that leaves nothing to chance
    free = lambda ops: not any(o['e'] == 'new' or o['e'] == 'mk' and o['kind'] == 'tunnel_password' for o in ops)
    for g in (g_authreq, g_authresp, g_userpw, g_tunnelpw):
        for x in g(chk):
            if free(x['ops']) and r.random() < (1 if chk.thorough else .35): b.session(x['ops'])
    return b.done()
