"""Scenarios for the server driver.  They only choose inputs and say what to wait for; the recorded traces are judged by
TraceServer.tla."""
import json, socket
from core import ToolError, tlc
from gen import hx, rb, md5, area, pkt, sealed, Z16, rsecret, near, blurred, SEALED, PLAIN, RESP

SOURCES = [['127.0.0.1', -1], ['127.0.0.1', -1], ['127.0.0.1', -1], ['127.0.0.2', 1]]   # 0 is the sentinel; 3 has 1's port

def request(r, code, ident, secret, size=None, attrs=None, pad=b''):
    """A request that is authentic under secret."""
    if attrs is None:
        attrs = []
        room = (size if size is not None else 20 + r.choice([0, 3, 18, 40, 200])) - 20
        while room >= 2:
            n = min(room, 255)
            if room - n == 1: n -= 1
            attrs.append((r.choice([1, 4, 24, 25, 31, 32, 33, 79, 80]), rb(r, n - 2)))
            room -= n
    body = area(attrs)
    return pkt(code, ident, rb(r, 16), body, pad=pad) if code in PLAIN else sealed(code, ident, Z16, body, secret, pad=pad)

def filler(r, room):
    """Well-formed attributes of that many octets (or one fewer than 2)."""
    out = b''
    while room >= 2:
        n = min(room, r.choice([255, 255, 20, room]), 255)
        if room - n == 1: n -= 1 if n > 2 else -1
        if n > 255: n = 253
        out += bytes([r.choice([1, 4, 18, 24, 25, 26, 31, 32, 33, 79, 80]), n]) + rb(r, n - 2); room -= n
    return out

def bad(r, cls, ident, secret):
    """A datagram that is not acceptable although its source has a secret."""
    if cls == 'short': return rb(r, r.choice([0, 1, 4, 19]))
    f = filler(r, r.choice([0, 0, 0, 3, 20, 100, 236, 480, 1004, 1240, 1400, 1478]))     # of any size
    if cls == 'unauth':
        c = r.choice(SEALED)
        k = r.randrange(6)
        if k == 0: return pkt(c, ident, rb(r, 16), f or area([(1, b'x')]))
        if k == 1: return sealed(c, ident, Z16, f or area([(1, b'x')]), secret + b'x')
        if k == 2: return sealed(c, ident, rb(r, 16), f, secret)
        if k == 3: return pkt(r.choice([2, 3, 5, 11, 41, 44, 13, 255, 77]), ident, rb(r, 16), f)
        if k == 4: return pkt(c, ident, Z16, f)
        b = bytearray(request(r, c, ident, secret, 40 + len(f)) if len(f) < 1400 else sealed(c, ident, Z16, f, secret)); b[r.randrange(4, len(b))] ^= 1 << r.randrange(8); return bytes(b)
    c, a = r.choice(PLAIN), rb(r, 16)
    k = r.randrange(6)
    if k == 0: return pkt(c, ident, a, f, length=r.choice([19, 0, 4]))
    if k == 1: return pkt(c, ident, a, f, length=20 + len(f) + r.choice([1, 2, 255]))
    if k == 2: return pkt(c, ident, a, f + bytes([1, 1]))
    if k == 3: return pkt(c, ident, a, f + bytes([1, 9, 0]))
    if k == 4: return pkt(c, ident, a, f + b'\x01')
    return pkt(c, ident, a, f, length=r.choice([4097, 65535]))

class Scn:
    def __init__(self, r, sid, rt='ct', host='127.0.0.1', sources=None, settle_ms=None, codes=(1, 12, 4, 40, 43)):
        self.r, self.codes = r, codes
        self.d = {'sid': sid, 'rt': rt, 'host': host, 'sources': sources or SOURCES, 'settle_ms': settle_ms or (30 if rt == 'ct' else 120), 'ops': []}
        self.secret, self.starts, self.busy, self.skip = {}, 0, {}, False
        for s in range(1, len(self.d['sources'])):
            self.set_secret(s, rsecret(r))
    def op(self, **k): self.d['ops'].append(k)
    def set_secret(self, s, v):
        self.secret[s] = v
        self.op(op='secret', s=s, v={'ok': hx(v)} if isinstance(v, bytes) else v)
    def cfg(self, skip=None, buf=None):
        if skip is not None: self.skip = skip
        self.op(op='cfg', skip=skip, buf=buf)
    def maybe_skip(self, p=.25):
        """Validation off in some scenarios: everything but authenticity matters as before."""
        if self.r.random() < p: self.cfg(True)
    def bad(self, cls, s, i): return bad(self.r, 'malformed' if cls == 'unauth' and self.skip else cls, i, self.secret[s])
    def run(self): self.op(op='run')
    def stop(self): self.op(op='stop')
    def settle(self): self.op(op='settle')
    def sleep(self, ms): self.op(op='sleep', ms=ms)
    def raw(self, s, b): self.op(op='send', s=s, b=hx(b))
    def req(self, s, i, code=None, **k): return request(self.r, code or self.r.choice(self.codes), i, self.secret[s], **k)
    def new(self, s, i, code=None, wait=True, **k):
        """A request that has to be handled."""
        b = self.req(s, i, code, **k)
        self.raw(s, b)
        self.starts += 1
        self.busy[(s, i)] = b
        if wait: self.wait()
        return b
    def wait(self): self.op(op='waitstarts', n=self.starts)
    def end(self, s, i, out='ok', reply=False):
        self.busy.pop((s, i), None)
        if reply:
            self.op(op='end', s=s, id=i, out=out, reply=hx(bytes([2, i]) + rb(self.r, self.r.choice([18, 30, 300]))))
            self.op(op='recv', s=s)
        else:
            self.op(op='end', s=s, id=i, out=out)
    def end_all(self, r=None):
        for (s, i) in list(self.busy): self.end(s, i, (r or self.r).choice(['ok', 'ok', 'err', 'panic']))
    def done(self): return self.d

def has_v6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM); s.bind(('::1', 0)); s.close(); return True
    except OSError: return False

# ------------------------------------------------- histories enumerated by TLC
def histories(chk, cfg, simulate=None, seed=None):
    r = tlc('GenServer', cfg, workers=1, extra=['-simulate', 'num=%d' % simulate, '-depth', '60', '-seed', str(seed)] if simulate else [])
    hs = sorted(set(x for x in r.out.splitlines() if x.startswith('"HISTORY ')))
    if r.kind != 'ok' or not hs: raise ToolError('GenServer: ' + r.out[-2000:])
    if not simulate:
        chk.states += r.distinct; chk.transitions += r.generated
    chk.extra.setdefault('models', []).append({'module': 'GenServer', 'cfg': cfg, 'histories': len(hs), 'simulated': bool(simulate)})
    return [json.loads(json.loads(x)[len('HISTORY '):]) for x in hs]

V6_SOURCES = [['::1', -1]] * 4
def from_history(r, sid, hist, rt='ct', codes=(1, 12, 4, 40, 43), v6=False):
    c = Scn(r, sid, rt, codes=codes, **(dict(host='[::1]', sources=V6_SOURCES) if v6 else {}))
    i = r.choice([0, 255, r.randrange(256)]); j = (i + 1 + r.randrange(255)) % 256
    keys = {1: (1, i), 2: (2, i), 3: (3, i), 4: (1, j)}
    lastb, running, busy = {}, True, set()
    c.maybe_skip()
    c.run()
    pend = []
    for h in hist:
        if h['op'] == 'send':
            s, ident = keys[h['k']]
            b = lastb[h['k']] if h['same'] else c.req(s, ident)
            lastb[h['k']] = b
            c.raw(s, b)
            if running: busy.add(h['k'])
            else: pend.append(h['k'])
        elif h['op'] == 'bad':
            s, ident = keys[h['k']]
            cls = r.choice(['malformed', 'unauth', 'short', 'err', 'generic', 'empty', 'panic']) if h['cls'] == 'any' else h['cls']
            if cls in ('err', 'generic', 'empty', 'panic') and running:
                old = c.secret[s]
                c.set_secret(s, b'' if cls == 'empty' else cls)
                c.raw(s, request(r, r.choice(c.codes), ident, old))
                c.settle()
                c.set_secret(s, old)
            else:
                c.raw(s, c.bad(cls if cls in ('short', 'unauth') else 'malformed', s, ident))
        elif h['op'] == 'end':
            s, ident = keys[h['k']]
            c.end(s, ident, h['out'], reply=r.random() < .3)
            busy.discard(h['k'])
        elif h['op'] == 'stop': c.stop(); running = False
        elif h['op'] == 'run':
            c.run(); running = True
            busy |= set(pend); pend = []
        c.starts = h['starts']
        c.wait(); c.settle()
    # epilogue: whatever happened, every identifier can be used again
    if not running:
        c.run(); c.settle()
        new = set(pend) - busy
        c.starts += len(new); busy |= new
        c.wait(); c.settle()
    for k in sorted(busy): c.end(*keys[k])
    c.settle()
    for k in sorted(keys): c.new(*keys[k], wait=False)
    c.wait(); c.settle()
    for k in sorted(keys): c.end(*keys[k], reply=True)
    c.settle()
    return c.done()

def hist_scenarios(chk, n_edge, n_sim, keep=lambda h: True, codes=(1, 12, 4, 40, 43), sim_seed=7):
    r = chk.rng
    edge = [h for h in histories(chk, 'GenServer.cfg') if keep(h)]
    sim = [h for h in histories(chk, 'GenServerSim.cfg', simulate=max(20, n_sim), seed=chk.seed * 1000 + sim_seed) if keep(h)]
    r.shuffle(edge); r.shuffle(sim)
    chk.extra['transition_histories'] = len(edge)
    six = has_v6()
    out = [from_history(r, '%s-t%d' % (chk.pid, i), h, codes=codes, v6=six and i % 5 == 4) for i, h in enumerate(edge[:n_edge])]
    out += [from_history(r, '%s-s%d' % (chk.pid, i), h, rt='ct' if i % 3 else '4', codes=codes) for i, h in enumerate(sim[:n_sim])]
    return out

# ------------------------------------------------------------------ C13
def bursts(r, sid, rounds, width, distinct, workers=8):
    """Datagrams of one key whose tasks meet in the secret provider: exactly one may be handled."""
    c = Scn(r, sid, rt=str(workers))
    c.maybe_skip()
    c.run(); c.settle()
    for k in range(rounds):
        s = 1 + k % 3
        i = (k * 7 + r.randrange(7)) % 256
        base = c.req(s, i)
        bs = [[s, hx(c.req(s, i) if distinct and r.random() < .5 else base)] for _ in range(width)]
        c.op(op='burst', bs=bs)
        c.starts += 1; c.wait(); c.sleep(2)
        c.end(s, i, r.choice(['ok', 'err', 'panic']))
        if k % 24 == 23: c.settle()
    c.settle()
    return c.done()

SPANS = [1000, 5000, 31000, 61000, 301000, 901000, 3600000, 86400000, 40 * 86400000, 400 * 86400000]
def hold(r, sid, ms):
    """Duplicates of a request whose handler takes long (in real time)."""
    c = Scn(r, sid)
    c.maybe_skip()
    c.run()
    b = c.new(1, 9)
    for k in range(4):
        c.sleep(ms // 4)
        c.raw(1, b); c.raw(1, c.req(1, 9)); c.settle()
    c.end(1, 9); c.settle(); c.new(1, 9); c.end(1, 9); c.settle()
    return c.done()
def ages(r, sid, rt='ct', quick=()):
    """Handlers that take seconds to years by the server's clocks: duplicates stay duplicates, ended requests do not, and
    what was in progress before a shutdown still is."""
    c = Scn(r, sid, rt, settle_ms=20 if rt == 'ct' else 60)
    c.maybe_skip()
    c.run()
    b, b2 = c.new(1, 9), c.new(2, 200)
    for k, ms in enumerate(quick or SPANS):
        c.op(op='advance', ms=ms)
        for _ in range(2):
            c.raw(1, b); c.raw(1, c.req(1, 9)); c.raw(2, c.req(2, 200)); c.raw(2, b2); c.settle()
        x = 20 + k
        y = c.new(3, x); c.settle()                          # another request comes and goes
        c.op(op='advance', ms=ms); c.settle(); c.raw(3, y); c.settle()
        c.end(3, x, r.choice(['ok', 'err', 'panic']), reply=True); c.settle()
        c.new(3, x); c.op(op='advance', ms=r.choice([0, 1, ms])); c.end(3, x, 'ok'); c.settle()
        if k % 4 == 3:                                       # and the server is stopped and run again
            c.stop(); c.op(op='advance', ms=ms); c.run(); c.settle()
            c.raw(1, b); c.raw(2, c.req(2, 200)); c.settle()
    c.end(1, 9, reply=True); c.end(2, 200, 'panic'); c.settle()
    c.new(1, 9); c.new(2, 200); c.settle(); c.end(1, 9); c.end(2, 200, reply=True); c.settle()
    c.op(op='advance', ms=r.choice(SPANS)); c.new(1, 9); c.settle()
    return c.done()

def crowd(r, sid, n, every=False, stop=False):
    """Many requests in progress at once; then duplicates of all, then reuse of some."""
    k = -(-n // 256)
    c = Scn(r, sid, sources=[['127.0.0.1', -1]] * (1 + k), codes=(1,))
    c.d['split'] = True
    c.maybe_skip()
    c.run()
    keys = [(1 + m // 256, m % 256) for m in range(n)]
    data = {}
    for x, key in enumerate(keys):
        data[key] = c.new(*key, wait=(x % 64 == 63), size=30)
    c.wait(); c.settle()
    for x, key in enumerate(keys):
        c.raw(key[0], data[key])
        if x % 64 == 63: c.settle()
    c.settle()
    if stop: c.stop(); c.settle()
    some = keys[:8] + r.sample(keys, 8) + keys[-8:]
    if every: some = keys; r.shuffle(some)
    for key in dict.fromkeys(some): c.end(*key, out=r.choice(['ok', 'err', 'panic']), reply=stop)
    c.settle()
    if stop: c.run(); c.settle()
    for x, key in enumerate(dict.fromkeys(some)): c.new(*key, size=30, wait=(x % 64 == 63))
    c.wait(); c.settle()
    return c.done()

def lookalikes(r, sid, rt='ct', v6=False):
    """Sources whose addresses or ports are nearly the same, all with the same identifiers."""
    ip = '::1' if v6 else '127.0.0.1'
    src = [[ip, -1], [ip, -1]] + [[ip, 1, 1 << k] for k in range(15)]
    if not v6: src += [[a, 1] for a in ('127.0.0.2', '127.0.1.1', '127.1.0.1', '127.0.0.129', '127.128.0.1', '127.1.1.1')] + [['127.0.0.2', 1, 256], ['127.0.1.1', 1, 1]]
    c = Scn(r, sid, rt, host='[::1]' if v6 else '127.0.0.1', sources=src)
    c.maybe_skip()
    c.run()
    n, i = len(src) - 1, r.randrange(256)
    order = r.sample(range(1, n + 1), n)
    old = {s: c.new(s, i) for s in order}
    c.settle()
    for s in order: c.raw(s, old[s]); c.raw(s, old[order[(order.index(s) + 1) % n]])      # duplicates; another's request
    c.settle()
    half = order[::2]
    for s in half: c.end(s, i, r.choice(['ok', 'err', 'panic']), reply=True)
    c.settle()
    for s in r.sample(half, len(half)): c.new(s, i)
    for s in order: c.raw(s, c.req(s, i))
    c.settle()
    for j in (i ^ 1, i ^ 128, i ^ 16):
        for s in order: c.new(s, j)
    c.settle()
    return c.done()

def deluge(r, sid, kind, n, rt='ct'):
    """Very many datagrams that are dropped; a request in progress stays so, and service goes on."""
    c = Scn(r, sid, rt, settle_ms=60)
    c.maybe_skip()
    c.run()
    b = c.new(1, 7); b2 = c.new(2, 7); c.settle()
    what = b2 if kind == 'dup' else c.bad(kind, 2, 7)
    c.op(op='flood', s=2, b=hx(what), n=n); c.op(op='unflood', now=False); c.op(op='ping'); c.settle()
    c.raw(1, b); c.raw(2, b2); c.raw(1, c.req(1, 7)); c.settle()
    c.end(1, 7, reply=True); c.end(2, 7, 'err'); c.settle()
    for s in (1, 2, 3): c.new(s, 7); c.end(s, 7, reply=True); c.new(s, 8)
    c.settle()
    return c.done()

def laps(r, sid, n):
    """As many requests as a counter can hold, one at a time, and service goes on."""
    c = Scn(r, sid, 'ct', settle_ms=60)
    c.run()
    b = c.new(1, 7); c.settle()
    c.op(op='laps', n=n); c.settle()
    c.raw(1, b); c.settle(); c.end(1, 7, reply=True); c.settle()
    for s in (1, 2, 3): c.new(s, 7); c.end(s, 7, reply=True)
    c.settle(); c.stop(); c.run(); c.op(op='laps', n=300); c.new(1, 9); c.settle()
    return c.done()

def soak(r, sid, n, rt='ct'):
    """One server for a long time: thousands of requests of a few keys, every outcome, junk in between."""
    c = Scn(r, sid, rt, codes=(1, 1, 4, 12, 40, 43), settle_ms=5 if rt == 'ct' else 40)
    c.maybe_skip()
    c.run()
    for k in range(n):
        s, i = 1 + r.randrange(3), r.choice([0, 1, 7, 255])
        if (s, i) in c.busy:
            if r.random() < .5: c.raw(s, c.req(s, i, size=24))
            c.end(s, i, r.choice(['ok', 'ok', 'err', 'panic']), reply=r.random() < .1)
            c.settle()
        if r.random() < .2: c.raw(s, r.choice([c.bad('malformed', s, i), c.bad('unauth', s, i), b'']))
        c.new(s, i, size=r.choice([20, 24, 60]))
    c.settle()
    return c.done()

def repeats(r, sid, rt='ct', skip=None, v6=False):
    """Datagrams that repeat an identifier but nothing else: of another type, size or content, padded, with a new secret, and
    with validation on and off."""
    c = Scn(r, sid, rt, **(dict(host='[::1]', sources=V6_SOURCES) if v6 else {}))
    c.cfg(skip, 4096)
    c.run()
    for k in range(8):
        s, i, z = 1 + k % 3, r.choice([0, 255, r.randrange(256)]), r.choice([20, 40, 300, 1023, 1024, 1499, 2048, 4096])
        b = c.new(s, i, r.choice([1, 4, 12, 40, 43]), size=z); c.settle()
        def variants():
            out = [b, b + b'\0', b[:20] if not skip else b, b + rb(r, 4096 - len(b))]
            out += [c.req(s, i, code, size=r.choice([20, z, 4096, r.randrange(22, 4097)])) for code in (1, 4, 12, 40, 43)]
            out += [c.req(s, i, code, attrs=[(33, rb(r, 5)), (41, rb(r, 4))]) for code in (1, 4)]
            if skip: out += [bad(r, 'unauth', i, c.secret[s]) for _ in range(6)]
            r.shuffle(out)
            return out
        for x in variants(): c.raw(s, x)
        c.settle()
        if k % 2:
            c.set_secret(s, rsecret(r))
            for x in variants()[:8]: c.raw(s, x)
            c.settle()
        if k == 5:
            c.stop(); c.settle(); c.run()
            for x in variants()[:8]: c.raw(s, x)
            c.settle()
        c.end(s, i, r.choice(['ok', 'err', 'panic']), reply=True); c.settle()
        c.new(s, i, r.choice([1, 4, 12, 40, 43]), size=r.choice([20, 1024, 4096])); c.settle()
        c.end(s, i); c.settle()
    return c.done()

def s13(chk):
    r = chk.rng
    out = [repeats(r, 'C13-repeat%d' % k, ['ct', '4'][k % 2], [None, True, False, True][k % 4], has_v6() and k % 5 == 4) for k in range(chk.n(10, 60))]
    out += [lookalikes(r, 'C13-alike%d' % k, ['ct', '4'][k % 2], has_v6() and k % 4 == 3) for k in range(chk.n(4, 16))]
    out += [deluge(r, 'C13-deluge-%s' % k, k, chk.n(140000, 400000), rt) for k, rt in (('dup', 'ct'), ('unauth', '4'))]
    out += [hold(r, 'C13-hold', chk.n(6000, 130000)), crowd(r, 'C13-crowd', chk.n(5000, 20000))]
    out += [ages(r, 'C13-age%d' % k, ['ct', '2', '4'][k % 3]) for k in range(chk.n(4, 12))]
    out += hist_scenarios(chk, chk.n(120, 2000), chk.n(40, 400), keep=lambda h: any(x['op'] == 'send' for x in h))
    return out
def s13_race(chk):
    r = chk.rng
    return [bursts(r, 'C13-race%d' % k, chk.n(72, 480), 2 + k % 4, k % 2 == 1) for k in range(chk.n(4, 16))]

# ------------------------------------------------------------------ C14
def cycles(r, sid, n, rt='ct'):
    """One key used again and again, with every outcome and with dropped datagrams in between."""
    c = Scn(r, sid, rt, codes=(1, 1, 1, 4), settle_ms=10 if rt == 'ct' else 60)
    c.maybe_skip()
    c.run()
    s, i = 1, r.choice([0, 255, r.randrange(256)])
    for k in range(n):
        b = c.new(s, i)
        for _ in range(r.randrange(3)):
            c.raw(s, r.choice([b, c.req(s, i), c.bad('malformed', s, i), c.bad('unauth', s, i), b'']))
        c.settle()
        c.end(s, i, ['ok', 'err', 'panic', 'panic', 'err'][k % 5] if k < 10 else r.choice(['ok', 'err', 'panic']), reply=r.random() < .2)
        c.settle()
    return c.done()
def s14(chk):
    r = chk.rng
    out = [cycles(r, 'C14-cycle%d' % k, chk.n(25, 150), 'ct' if k % 3 else '4') for k in range(chk.n(9, 40))]
    out += [ages(r, 'C14-age%d' % k, ['ct', '4'][k % 2], r.sample(SPANS, 5)) for k in range(chk.n(4, 12))]
    out += [deluge(r, 'C14-deluge-%s' % k, k, chk.n(140000, 400000), rt) for k, rt in (('dup', 'ct'), ('unauth', '4'), ('malformed', 'ct'), ('short', '4'))]
    out += [repeats(r, 'C14-repeat%d' % k, ['ct', '4'][k % 2], [None, True][k // 2 % 2]) for k in range(chk.n(4, 30))]
    out.append(laps(r, 'C14-laps', chk.n(66500, 300000)))
    out.append(crowd(r, 'C14-crowd', chk.n(1200, 6000), every=True))
    out += [soak(r, 'C14-soak%d' % k, chk.n(700, 6000), 'ct' if k % 2 else '2') for k in range(2)]
    out += hist_scenarios(chk, chk.n(200, 2000), chk.n(50, 400), keep=lambda h: any(x['op'] == 'end' for x in h) or any(x['op'] == 'bad' for x in h), codes=(1, 1, 1, 4))
    return out

# ------------------------------------------------------------------ C15
def battery(r, secret):
    """Datagrams of every sort; which are acceptable is for the specification to say."""
    out = []
    for c in range(256):                                        # every type octet, sealed or not
        body = area([(1, b'u%d' % c)])
        out.append(sealed(c, c, Z16, body, secret))
        if c % 3 == 0: out.append(pkt(c, c, rb(r, 16), body))
    for c in SEALED:
        b = request(r, c, 11, secret, 46)
        for k in range(len(b)):
            t = bytearray(b); t[k] ^= 1 << r.randrange(8); out.append(bytes(t))
        body = area([(1, b'abc')])
        out += [sealed(c, 12, Z16, body, secret[:-1] or b'q'), sealed(c, 12, Z16, body, secret + b'\0'), sealed(c, 12, Z16, body, b''),
                sealed(c, 12, rb(r, 16), body, secret), pkt(c, 12, Z16, body), pkt(c, 12, md5(secret), body), b[:20], b[:30],
                b + b'\0', b + rb(r, 5), sealed(c, 12, Z16, body, secret, pad=rb(r, 9)),
                *blurred(r, request(r, c, 16, secret, 46)), *[sealed(c, 17, Z16, body, x) for x in near(r, secret)],
                sealed(c, 12, Z16, b'', secret), sealed(c, 12, Z16, b'\1\1', secret), sealed(c, 12, Z16, b'\1\7x', secret),
                sealed(c, 12, Z16, body, secret, length=24), sealed(c, 12, Z16, body, secret, length=26), sealed(c, 12, Z16, body, secret, length=5000)]
    for c in PLAIN:
        for n in (0, 1, 19, 20, 21, 22, 30, 255, 4096, 4097, 65535):
            out.append(pkt(c, 13, rb(r, 16), area([(1, b'abcdefgh')]), length=n))
        out += [pkt(c, 14, Z16, x) for x in (b'\1', b'\1\0', b'\1\1', b'\1\2', b'\1\3', b'\1\3a', b'\1\2\2', b'\1\2\2\1')]
    out += [b'', b'\1', rb(r, 19), rb(r, 20), rb(r, 60), b'\1' * 40, bytes(20)]
    for n in (80, 236, 492, 1004, 1380, 1479, 1480, 2000, 4000):             # of any size
        f = filler(r, n)
        for c in SEALED: out += [sealed(c, 18, Z16, f, secret), sealed(c, 18, Z16, f, secret + b'?'), pkt(c, 18, rb(r, 16), f), bytes(bad(r, 'unauth', 18, secret))]
        for c in PLAIN: out += [pkt(c, 19, rb(r, 16), f), pkt(c, 19, rb(r, 16), f + b'\1\1'), pkt(c, 19, rb(r, 16), f, length=22 + n), bad(r, 'malformed', 19, secret)]
    r.shuffle(out)
    return out

def s15(chk):
    r, out = chk.rng, []
    for rep in range(chk.n(1, 6)):
        for skip in (None, True, False):
            secret = rsecret(r)
            bs = battery(r, secret)
            per = 45
            for k in range(0, len(bs), per):
                if skip is not None and not chk.thorough and (k // per) % 3: continue
                c = Scn(r, 'C15-b%d-%s-%d' % (rep, skip, k), rt='ct' if (k // per) % 4 else '4')
                c.set_secret(1, secret)
                c.cfg(skip, 4200 if k % 2 else None)
                if skip is False:
                    c.d['ops'].insert(len(c.d['ops']) - 1, dict(op='cfg', skip=True, buf=None))    # on and off again
                c.run()
                for x, code in enumerate((1, 12, 4, 40, 43)): c.new(2, x, code)        # controls
                c.settle()
                for x in range(5): c.end(2, x)
                c.settle()
                for b in bs[k:k + per]: c.raw(1, b)
                c.settle()
                for x, code in enumerate((1, 12, 4, 40, 43)): c.new(2, 10 + x, code)
                c.settle()
                out.append(c.done())
    for k in range(chk.n(3, 9)): out.append(named_ports(r, 'C15-port%d' % k))
    for rep in range(chk.n(12, 60)):                        # what the provider says, per source and over time
        c = Scn(r, 'C15-p%d' % rep, rt='ct' if rep % 4 else '4')
        if rep % 3 == 2: c.cfg(True)
        c.run()
        for x, code in enumerate((1, 12, 4, 40, 43)): c.new(2, x, code)
        c.settle()
        for x in range(5): c.end(2, x)
        c.settle()
        for ans in r.sample(['err', 'generic', b'', 'panic', rb(r, 8)], 5):
            old = c.secret[1]
            c.set_secret(1, ans)
            for code in (1, 12, 4, 40, 43, 2, 99):
                c.raw(1, request(r, code, r.randrange(256), old)); c.raw(1, request(r, code, r.randrange(256), b''))
            c.raw(3, request(r, 4, 1, c.secret[2])); c.raw(2, request(r, 43, 77, c.secret[3]))     # another source's secret
            c.settle()
            c.set_secret(1, r.choice(BLANK) if r.random() < .5 else rsecret(r))
            c.settle()
            c.op(op='send', s=1, b=hx(request(r, 4, 200 + r.randrange(50), c.secret[1])))
            c.settle()
        for x, code in enumerate((1, 12, 4, 40, 43)): c.new(2, 100 + x, code)
        c.settle()
        out.append(c.done())
    return out

PORTS = [[1], [53], [67], [80], [123], [161], [443], [512], [1023], [1024], [1645], [1646], [1812], [1813], [1814], [2083], [3799], [65535], [65534], [49152]]
def named_ports(r, sid, skip=None):
    """Sources at ports that a server could take for something (where the system lets them be had)."""
    n = len(PORTS)
    c = Scn(r, sid, r.choice(['ct', '4']), sources=[['127.0.0.1', -1]] + [['127.0.0.1', -1, 0, p] for p in PORTS])
    if skip is not None: c.cfg(skip)
    c.run()
    for s in range(1, n + 1):
        c.raw(s, request(r, 4, 9, b'another' + c.secret[s]))
        for cls in ('unauth', 'short', 'malformed'):
            if cls != 'unauth' or not skip: c.raw(s, bad(r, cls, 8, c.secret[s]))
    c.settle()
    for s in range(1, n + 1): c.new(s, 1, code=r.choice([1, 4, 12, 40, 43]), wait=False)
    c.wait(); c.settle()
    for s in range(1, n + 1): c.raw(s, c.busy[(s, 1)]); c.new(s, 2, wait=False)
    c.wait(); c.settle()
    for s in range(1, n + 1): c.end(s, 1, r.choice(['ok', 'err', 'panic']), reply=True); c.end(s, 2)
    c.settle()
    for s in range(1, n + 1): c.new(s, 1, wait=False)
    c.wait(); c.settle()
    return c.done()

# ------------------------------------------------------------------ C16
BLANK = [b' ', b'\0', b'\n', b'\t \r\n', b'   ', b'\0' * 16, b'0', b'\xff' * 16, b'none', b'null', b'""']    # secrets like none
def blanks(r, sid, rt='ct'):
    c = Scn(r, sid, rt)
    if r.random() < .3: c.cfg(True)
    c.run()
    for k, b in enumerate(r.sample(BLANK, len(BLANK))):
        c.set_secret(1, b); c.set_secret(2, r.choice(BLANK))
        c.new(1, k, code=r.choice(SEALED), wait=False); c.new(2, k, wait=False); c.wait(); c.settle()
        c.end(1, k, reply=True); c.end(2, k); c.settle()
    return c.done()
def s16(chk, v6):
    r, out = chk.rng, []
    hosts = [('127.0.0.1', SOURCES), ('0.0.0.0', SOURCES)] + ([('[::1]', [['::1', -1]] * 4), ('[::]', [['::1', -1]] * 4), ('[::]', [['127.0.0.1', -1], ['::1', -1], ['127.0.0.1', -1], ['127.0.0.2', 2]])] if v6 else [])
    n = 0
    for rep in range(chk.n(3, 15)):
        for host, srcs in hosts:
            for buf in (None, 4096, 64, 65535, 20):
                n += 1
                c = Scn(r, 'C16-size%d' % n, rt='ct' if n % 3 else '4', host=host, sources=srcs)
                c.cfg(True if r.random() < .25 else None, buf)
                c.run()
                B = buf or 1500
                top = min(B, 4096)
                sizes = [20, top, min(22, top), top - 1 if top > 22 else 20, top, 23 if top >= 23 else 20, max(20, top // 2), 20]
                r.shuffle(sizes)
                for k, z in enumerate(sizes):                       # a large one followed by a small one and vice versa
                    if z == 21: z = 20
                    c.new(1 + k % 3, k, size=z, wait=False)
                c.wait(); c.settle()
                for k, z in enumerate(sizes): c.end(1 + k % 3, k, reply=r.random() < .5)
                c.settle()
                for k in range(4):                                  # padding up to the buffer size; larger datagrams
                    z = r.choice([20, min(22, top), min(40, top)])
                    c.new(1, 50 + k, size=z, pad=rb(r, (r.choice([2000, 4077, 9000, 20000]) if B > 60000 else min(B, 2000)) - z))
                if B < 4000:
                    c.raw(2, request(r, 1, 60, c.secret[2], size=B + 1 if B > 20 else 22)); c.raw(2, request(r, 4, 61, c.secret[2], size=20, pad=rb(r, B)))
                c.settle()
                c.new(3, 70); c.settle()
                out.append(c.done())
    for rep in range(chk.n(2, 8)):                                  # requests of many sources and identifiers in progress at once
        out.append(crowd(r, 'C16-crowd%d' % rep, chk.n(4500, 20000) if rep == 0 else 300))
    out += [lookalikes(r, 'C16-alike%d' % k, ['ct', '4'][k % 2], v6 and k % 4 == 3) for k in range(chk.n(4, 16))]
    for k in range(chk.n(2, 6)): out.append(named_ports(r, 'C16-port%d' % k)); out.append(blanks(r, 'C16-blank%d' % k, ['ct', '4'][k % 2]))
    out.append(laps(r, 'C16-laps', chk.n(66500, 300000)))
    out += [deluge(r, 'C16-deluge-%s' % k, k, chk.n(140000, 400000), rt) for k, rt in (('dup', 'ct'), ('short', 'ct'), ('malformed', '4'))]
    out += [ages(r, 'C16-age%d' % k, ['ct', '4'][k % 2], r.sample(SPANS, 4)) for k in range(chk.n(3, 12))]
    out += [soak(r, 'C16-soak%d' % k, chk.n(500, 6000), 'ct' if k % 2 else '2') for k in range(2)]
    out += hist_scenarios(chk, chk.n(60, 2000), chk.n(40, 300))
    return out
def s16_race(chk):
    r, out = chk.rng, []
    for k in range(chk.n(4, 16)):                                   # different requests at the same moment
        c = Scn(r, 'C16-race%d' % k, rt='8')
        c.maybe_skip(); c.run(); c.settle()
        for rnd in range(chk.n(24, 100)):
            keys = [(s, i) for s in (1, 2, 3) for i in (rnd * 2 % 256, (rnd * 2 + 1) % 256)]
            r.shuffle(keys)
            keys = keys[:r.choice([2, 4, 6])]
            bs = [[s, hx(c.req(s, i, size=r.choice([20, 60, 400, 1500])))] for s, i in keys]
            c.op(op='burst', bs=bs)
            c.starts += len(keys); c.wait()
            for s, i in keys: c.end(s, i, r.choice(['ok', 'err', 'panic']))
            if rnd % 12 == 11: c.settle()
        c.settle()
        out.append(c.done())
    return out

# ------------------------------------------------------------------ C17
def settings(r, sid, rt='ct', start=(None, None)):
    """What was set stays set from run to run, until it is set anew."""
    c = Scn(r, sid, rt)
    skip, buf = start
    for rnd in range(6):
        if rnd in (0, 3) or rnd == 5 and r.random() < .5:
            if rnd: skip, buf = r.choice([True, False, None]), r.choice([None, 20, 64, 200, 1500, 4096])
            if (skip, buf) != (None, None): c.cfg(skip=skip, buf=buf)
        c.run()
        if r.random() < .3: c.new(3, 77, size=20)
        i = 0
        for z in r.sample([20, 63, 64, 199, 200, 201, 1499, 1500, 1501, 2000, 4095, 4096], 7):
            for b in (c.req(1, i, code=r.choice(SEALED), size=z), request(r, r.choice(SEALED), i + 1, c.secret[1] + b'?', size=z), c.req(1, i + 2, code=1, size=z)):
                c.raw(1, b); i += 1
        c.settle()
        c.stop()
        if r.random() < .4: c.op(op='runready')
        c.settle()
        for s in (1, 2):
            for j in range(i + 2): c.op(op='end', s=s, id=j, out='ok')
        c.end(3, 77); c.settle()
    return c.done()

def s17(chk):
    r, out = chk.rng, []
    for k in range(chk.n(12, 60)):
        out.append(settings(r, 'C17-set%d' % k, ['ct', 'ct', '4'][k % 3], (r.choice([True, True, None, False]), r.choice([None, 64, 200, 4096, 4096]))))
    for k in range(chk.n(24, 120)):
        rt = 'ct' if k % 3 else '4'
        c = Scn(r, 'C17-stop%d' % k, rt)
        c.maybe_skip()
        if k % 5 == 4: c.op(op='runready'); c.settle()              # a trigger that has completed before
        c.run()
        if k % 8 == 3: c.op(op='sleep', ms=300)
        b1 = c.new(1, 1); b2 = c.new(2, 1, wait=False); c.wait(); c.settle()
        c.stop()
        late = c.req(3, 5)
        c.raw(3, late); c.raw(1, b1)                                # not served until it runs again
        c.settle(); c.sleep(120); c.settle()
        c.end(1, 1, r.choice(['ok', 'err', 'panic']), reply=k % 2 == 0)    # the handler in progress finishes and replies
        c.settle()
        for _ in range(k % 3):                                      # running with a completed trigger in between changes nothing
            c.op(op='runready'); c.sleep(40)
        if k % 3: c.settle()
        c.run()
        c.starts += 2 if True else 0                                # the late request and b1, whose handler has ended
        c.busy[(3, 5)] = late
        c.wait(); c.settle()
        c.raw(2, b2); c.settle()                                    # still in progress from the first run
        c.end(2, 1, reply=True); c.end(3, 5, reply=True); c.end(1, 1); c.settle()
        c.new(1, 1); c.new(2, 1); c.settle()
        c.stop(); c.settle()
        c.end(1, 1, reply=True); c.end(2, 1, reply=True); c.settle()
        if k % 3 == 0:                                              # again and again
            for x in range(40 if k % 12 == 0 else 3):
                c.run(); c.new(1, 20 + x); c.settle(); c.stop()
                c.end(1, 20 + x, reply=True); c.settle()
        out.append(c.done())
    out += [crowd(r, 'C17-crowd%d' % k, chk.n(400, 3000), every=True, stop=True) for k in range(2)]
    out += [ages(r, 'C17-age%d' % k, ['ct', '4'][k % 2], r.sample(SPANS, 8)) for k in range(chk.n(4, 12))]
    out += hist_scenarios(chk, chk.n(150, 2000), chk.n(40, 400), keep=lambda h: any(x['op'] == 'stop' for x in h))
    return out
def s17_flood(chk):
    """Shutdown while datagrams keep arriving, and requests sent around the shutdown."""
    r, out = chk.rng, []
    for k in range(chk.n(9, 30)):
        c = Scn(r, 'C17-flood%d' % k, rt=['ct', '2', '4'][k % 3], settle_ms=150)
        c.maybe_skip(); c.run()
        b = c.new(1, 1); c.settle()
        kind = ['short', 'unauth', 'malformed'][k // 3 % 3]
        c.op(op='flood', s=2, b=hx(c.bad(kind, 2, 3))); c.sleep(80)
        c.stop(); c.op(op='unflood')
        c.end(1, 1, reply=True)
        c.run(); c.sleep(200); c.op(op='ping'); c.settle()
        c.new(1, 1); c.new(2, 3); c.settle()
        out.append(c.done())
    for k in range(chk.n(12, 60)):
        c = Scn(r, 'C17-limbo%d' % k, rt=['ct', '4'][k % 2], settle_ms=100)
        c.maybe_skip(); c.run(); c.new(1, 1); c.settle()
        for x in range(6): c.raw(2, c.req(2, x))                    # may be served before the shutdown or after the next run
        c.stop()
        for x in range(6): c.raw(3, c.req(3, x))                    # only after the next run
        c.settle(); c.end(1, 1, reply=True); c.run()
        c.starts += 12; c.wait(); c.settle()
        out.append(c.done())
    return out

# ------------------------------------------------------------------ client
def call(r, c, i, answers, code=None, attrs=None, secret=None, to='peer', **k):
    if attrs is None: attrs = [[r.choice([1, 2, 4, 24, 80]), hx(rb(r, r.choice([0, 1, 5, 16, 40])))] for _ in range(r.randrange(4))]
    return dict(c=c, id=i, code=code or r.choice([1, 1, 12, 4, 40, 43]), secret=hx(secret if secret is not None else rsecret(r)), attrs=attrs, to=to, answers=answers, **k)
def good(r, **k):
    return dict(code=r.choice(RESP + RESP + [1, 4, 12, 13, 40, 43, 255]), attrs=[[r.choice([18, 25, 79]), hx(rb(r, r.choice([0, 3, 30])))] for _ in range(r.randrange(3))], **k)

def tampered(r, full=False, secret=b''):
    """Answers that are no authentic response to the request."""
    out = []
    def base(**k): return dict(code=r.choice(RESP), attrs=[[18, hx(b'hello')], [25, hx(rb(r, 6))]], **k)
    n = 20 + 7 + 8
    for k in range(n):
        for m in ([1 << r.randrange(8)] if not full else [1, 2, 4, 8, 16, 32, 64, 128, 255]): out.append(base(flip=[k, m]))
    out += [base(id=d) for d in (1, 128, 255)]
    out += [base(secret=hx(x)) for x in (b'', b'x', rb(r, 16))]
    if secret: out += [base(secret=hx(x)) for x in near(r, secret)]
    out += [base(mid=hx(x)) for x in (Z16, rb(r, 16))]
    out += [base(cut=k) for k in (0, 1, 4, 19, 20, 21, 27, n - 1)]
    out += [base(len=k) for k in (0, 19, 20, 27, 34, 36, 4096, 4097, 65535)]
    # several octets of the authenticator: exchanged, rotated, the same difference twice, only the beginning or the end right
    for _ in range(4):
        i, j = r.sample(range(4, 20), 2); m = r.randrange(1, 256)
        out += [base(swap=[[i, j]]), base(flips=[[i, m], [j, m]])]
    out += [base(rot=k) for k in (1, 8, 15)]
    out += [base(put=[4 + k, hx(rb(r, 16 - k))]) for k in (0, 1, 4, 8, 12, 15)] + [base(put=[4, hx(rb(r, k))]) for k in (1, 4, 8, 12, 15)]
    out += [base(put=[4, hx(x)]) for x in (bytes(16), b'\xff' * 16)]
    for c in RESP: out += [dict(base(flip=[r.randrange(4, n), 1 << r.randrange(8)]), code=c), dict(base(secret=hx(b'')), code=c), dict(base(put=[4, hx(bytes(16))]), code=c)]
    for c in RESP + [1, 4, 12, 40, 43]: out += [dict(code=c, attrs=[], **k) for k in (dict(put=[4, hx(bytes(16))]), dict(flip=[4 + r.randrange(16), 1]), dict(secret=hx(b'other')))]
    out += [dict(code=2, body=hx(x)) for x in (b'\1', b'\1\0', b'\1\1', b'\1\3', b'\1\2\2')]
    out += [dict(echo=True), dict(raw=''), dict(raw=hx(rb(r, 20))), dict(raw=hx(bytes(20))), dict(raw=hx(rb(r, 4096)))]
    return out

def s18(chk, v6):
    r, out = chk.rng, []
    def ses(name, calls, **k): out.append(dict(sid='%s-%s' % (chk.pid, name), calls=calls, **k))
    def many(n, f): return [f(c + 1, i) for c, i in enumerate(r.sample(range(256), n))]
    for rep in range(chk.n(2, 10)):
        for st in (3000, None):
            tag = '%d-%s' % (rep, st)
            ses('good' + tag, many(20, lambda c, i: call(r, c, i, [good(r)])), st=st, seq=True)
            ses('par' + tag, many(30, lambda c, i: call(r, c, i, [good(r)])), st=st, all=True)
            ses('bad' + tag, many(30, lambda c, i: call(r, c, i, [r.choice(tampered(r))])), st=st, seq=True)
            ses('first' + tag, many(24, lambda c, i: call(r, c, i, r.choice([[good(r), good(r)], [good(r), r.choice(tampered(r))], [r.choice(tampered(r)), good(r)]]))), st=st)
            ses('foreign' + tag, many(16, lambda c, i: call(r, c, i, [good(r, **{'from': r.choice(['port', 'ip']), 'after': 40}), dict(raw=hx(rb(r, 30)), **{'from': 'port', 'after': 20}), good(r, wait=30)])), st=st)
            ses('size' + tag, [call(r, c + 1, c, [dict(code=2, attrs=[[79, hx(rb(r, 253))]] * 15 + [[80, hx(rb(r, z))]], pad=hx(rb(r, p)))])
                               for c, (z, p) in enumerate([(249, 0), (248, 1), (0, 0), (100, 151), (249, 10), (249, 4000), (1, 30000)])], st=st, seq=True)
            if v6: ses('v6' + tag, many(12, lambda c, i: call(r, c, i, [good(r)] if c % 3 else [r.choice(tampered(r))])), st=st, v6=True)
        # nothing, late, foreign only
        for st in (250, 600):
            ses('none%d-%d' % (rep, st), many(6, lambda c, i: call(r, c, i, [])), st=st)
            ses('late%d-%d' % (rep, st), many(6, lambda c, i: call(r, c, i, [good(r, late=True), good(r)])), st=st, linger=150)
            ses('onlyforeign%d-%d' % (rep, st), many(6, lambda c, i: call(r, c, i, [good(r, **{'from': 'port'}), good(r, **{'from': 'ip'})])), st=st)
            ses('closed%d-%d' % (rep, st), many(4, lambda c, i: call(r, c, i, [], to='closed')), st=st)
            if v6: ses('v6none%d-%d' % (rep, st), many(3, lambda c, i: call(r, c, i, [good(r, **{'from': 'port'})])), st=st, v6=True)
        # datagrams from elsewhere that arrive before the client's socket is connected
        for k in range(3):
            six = v6 and k == 2
            def early(): return [r.choice([good(r), good(r), r.choice(tampered(r)), dict(raw=hx(rb(r, r.choice([0, 20, 50]))))]) | {'from': 'port' if six else r.choice(['port', 'ip'])} for _ in range(r.choice([1, 1, 3]))]
            ses('early%d-%d' % (rep, k), many(12, lambda c, i: call(r, c, i, [] if c % 4 == 3 else [good(r)] if c % 4 else [r.choice(tampered(r))], early=early())), st=300 if k == 1 else 600, seq=True, v6=six)
        for st in (0, 1, 20): ses('tiny%d-%d' % (rep, st), many(4, lambda c, i: call(r, c, i, [])), st=st)
        ses('closed%d' % rep, many(4, lambda c, i: call(r, c, i, [], to='closed', limit=1500)), st=None)
        ses('wait%d' % rep, many(4, lambda c, i: call(r, c, i, [], limit=1500)), st=None)
        ses('slow%d' % rep, many(6, lambda c, i: call(r, c, i, [good(r, wait=chk.n(6000, 35000))], limit=60000)), st=None)
        # what the connection timeout is bears only on the connection
        for ct, st, w in ((300, None, 700), (1000, None, 2500), (50, 4000, 600), (0, 3000, 50), (3000, 800, 300)):
            ses('ct%d-%d-%s' % (rep, ct, st), many(4, lambda c, i: call(r, c, i, [good(r, wait=w)], limit=30000)), st=st, ct=ct)
        ses('slowst%d' % rep, many(6, lambda c, i: call(r, c, i, [good(r, wait=2500)])), st=6000, ct=1000)
        # requests without an encoding
        def enc(c, i):
            k = r.randrange(3)
            if k == 0: return call(r, c, i, [good(r)], code=r.choice([13, 255]))
            if k == 1: return call(r, c, i, [good(r)], attrs=[[1, hx(rb(r, 254))]])
            return call(r, c, i, [good(r)], attrs=[[79, hx(rb(r, 253))]] * 15 + [[80, hx(rb(r, 250))]])
        ses('unencodable%d' % rep, many(9, enc), st=1500)
        ses('unencodablenone%d' % rep, many(3, enc), st=None, ct=500)
        # by a clock that is put forward: answers after seconds to months, and none
        for k, st in enumerate((None, 3000, 6000, 60000, 90000, 3600000, 86400000, 2 * 86400000)):      # TLC's numbers end at 24 days
            calls = []
            for c in range(6):
                before = [dict(advance=x) for x in (r.sample(SPANS[:8], 3) if st is None else [st // 3, st // 3 - 400])]
                a = [good(r)] if c == 4 else [r.choice(tampered(r))] if c == 5 else before + [good(r)] if c % 2 == 0 or st is None else before + [dict(advance=st), good(r, late=True)]
                if st is not None and c == 3: a = before + [good(r, **{'from': 'port'}), dict(advance=st)]
                calls.append(call(r, c + 1, r.randrange(256), a, limit=8000))
            ses('age%d-%s' % (rep, st), calls, st=st, ct=[None, 1000, 60000][k % 3], seq=True, own=True)
        # exchanges one after another, the answer to one coming during the next; the same identifiers and requests again
        for k in range(3):
            secret = rsecret(r)
            i, j = r.sample(range(256), 2)
            same = [[1, hx(b'nemo')]]
            calls = []
            for c in range(1, 10):
                kw = dict(secret=secret, code=[4, 1, 12, 40, 43][(c // 2 + k) % 5] if k else 4, attrs=same)
                ident = i if k < 2 or c % 2 else j
                if c % 3 == 1: calls.append(call(r, c, ident, [good(r, until=c + 1)], **kw))             # too late
                elif c % 3 == 2: calls.append(call(r, c, ident, [good(r, wait=120)] if c != 5 else [dict(replay=2, wait=60)], **kw))
                else: calls.append(call(r, c, ident, [good(r), good(r)], **kw))
            ses('next%d-%d' % (rep, k), calls, st=700, seq=True)
        # largest request
        ses('big%d' % rep, many(3, lambda c, i: call(r, c, i, [good(r)], attrs=[[79, hx(rb(r, 253))]] * 15 + [[80, hx(rb(r, 249))]])), st=3000)
        # every type of request
        ses('types%d' % rep, [call(r, c + 1, c, [good(r)], code=k) for c, k in enumerate([1, 2, 3, 4, 5, 11, 12, 40, 41, 42, 43, 44, 45])], st=3000)
        ses('nosecret%d' % rep, many(4, lambda c, i: call(r, c, i, [good(r)], secret=b'')), st=3000)
    return out

def s18_soak(chk, v6):
    """Many exchanges one after another, with every outcome."""
    r, out = chk.rng, []
    for k in range(chk.n(10, 60)):
        calls = []
        for c in range(1, 101):
            a = r.choice([[good(r)]] * 4 + [[r.choice(tampered(r))], [good(r), good(r)], [good(r, **{'from': 'port'}), good(r)]])
            if k % 5 == 4 and c % 10 == 0: a = []
            calls.append(call(r, c, r.randrange(256), a, attrs=[[1, hx(rb(r, 254))]] if k % 3 == 1 and c % 20 == 3 else None))
        # a call without an encoding never arrives: its identifier is its own
        used = {x['id'] for x in calls if not any(len(v[1]) > 506 for v in x['attrs'])}
        for x in calls:
            if any(len(v[1]) > 506 for v in x['attrs']): x['id'] = r.choice([i for i in range(256) if i not in used])
        out.append(dict(sid='%s-soak%d' % (chk.pid, k), calls=calls, seq=True, st=250 if k % 5 == 4 else [3000, None][k % 2], v6=v6 and k % 4 == 1))
    return out

def s19(chk, v6):
    r, out = chk.rng, []
    def ses(name, calls, **k): out.append(dict(sid='%s-%s' % (chk.pid, name), calls=calls, **k))
    n = 0
    for rep in range(chk.n(2, 4)):
        for code in (1, 4, 12, 40, 43):
            secret = rsecret(r)
            ts = tampered(r, chk.thorough, secret) + [good(r) for _ in range(6)]
            r.shuffle(ts)
            for k in range(0, len(ts), 60):
                n += 1
                ids = r.sample(range(256), 60)
                ses('t%d' % n, [call(r, j + 1, ids[j], [t], code=code, secret=secret) for j, t in enumerate(ts[k:k + 60])], st=3000, all=n % 2 == 0)
    for rep in range(chk.n(6, 30)):                          # the answer to another request, a replayed answer
        secret = rsecret(r)
        ids = r.sample(range(256), 20)
        calls = []
        for c, i in enumerate(ids):
            a = good(r)
            if c % 3 == 1: a = dict(a, id=1)
            if c % 3 == 2: a = dict(a, mid=hx(rb(r, 16)))
            calls.append(call(r, c + 1, i, [a, good(r)], secret=secret, code=[1, 4, 12, 40, 43][rep % 5]))
        ses('other%d' % rep, calls, st=3000, all=rep % 2 == 0, v6=v6 and rep % 3 == 0)
    for rep in range(chk.n(8, 40)):                          # one identifier again and again: earlier answers, replayed
        secret, i = rsecret(r), r.randrange(256)
        calls = []
        for c in range(1, 13):
            old = [dict(replay=x) for x in r.sample(range(1, c), min(c - 1, 1))]
            calls.append(call(r, c, i, r.choice([[good(r)], old + [good(r)], [r.choice(tampered(r)), good(r)]]) if c > 1 else [good(r)], secret=secret, code=[1, 1, 12, 4, 40, 43][rep % 6],
                              attrs=[[1, hx(b'nemo')]] if rep % 2 else [[1, hx(b'nemo%d' % c)]]))
        ses('replay%d' % rep, calls, st=3000, seq=True)
    return out

# ------------------------------------------------------------------ what is logged
def telling(r):
    """A secret that is recognised wherever it is shown."""
    k = r.randrange(3)
    if k == 0: return bytes(r.choice(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') for _ in range(r.choice([8, 12, 20, 40])))
    return rb(r, r.choice([8, 12, 20, 130]))
def s22(chk):
    """Server scenarios in which everything that can be logged is."""
    r, out = chk.rng, []
    for rep in range(chk.n(6, 40)):
        c = Scn(r, 'C22-log%d' % rep, rt='ct' if rep % 3 else '4')
        c.d['ops'] = []
        for x in (1, 2, 3): c.set_secret(x, telling(r))
        if rep % 3 == 1: c.cfg(True)
        c.run()
        for k in range(12):
            s = 1 + k % 3
            c.new(s, k, size=r.choice([20, 30, 60])); c.raw(s, c.req(s, k, size=30))
            for cls in ('short', 'unauth', 'malformed'): c.raw(s, bad(r, cls, 100 + k, c.secret[s]))
            c.settle()
            c.end(s, k, ['ok', 'err', 'panic'][k % 3], reply=k % 2 == 0)
            if k % 4 == 3:
                old = c.secret[s]
                for ans in ('err', 'generic', 'panic', b''):
                    c.set_secret(s, ans); c.raw(s, request(r, 1, 50, old)); c.raw(s, request(r, 4, 51, old)); c.settle()
                c.set_secret(s, telling(r))
        c.settle(); c.stop(); c.settle(); c.run(); c.new(1, 200); c.settle()
        out.append(c.done())
    return out
def s22_client(chk):
    r, out = chk.rng, []
    for rep in range(chk.n(4, 20)):
        answers = [[good(r)], [], [good(r, **{'from': 'port'})]] + [[t] for t in r.sample(tampered(r), 12)]
        out.append(dict(sid='C22-client%d' % rep, st=300, calls=[call(r, c + 1, c, a, secret=telling(r)) for c, a in enumerate(answers)] +
                        [call(r, 90, 90, [good(r)], attrs=[[1, hx(rb(r, 254))]], secret=telling(r)), call(r, 91, 91, [good(r)], code=13, secret=telling(r))]))
    return out

# ------------------------------------------------------------------ clients and server together
SEALED, PLAIN = (4, 40, 43), (1, 12)
def sys_call(r, sealed, body=None, i=None):
    code = r.choice(SEALED) if sealed else r.choice((1, 1, 1, 12))
    a = [[t, hx(rb(r, r.choice([1, 4, 16, 60])))] for t in r.sample([1, 4, 24, 31, 32, 80], r.randrange(1, 4))]
    d = dict(code=code, id=r.randrange(256) if i is None else i, attrs=a)
    if code == 1 and r.random() < .7:
        n = r.choice([0, 1, 15, 16, 17, 31, 32, 33, 127, 128])
        d['pw'] = hx(bytes(r.randrange(1, 256) for _ in range(n)))
    return d
def sys_answer(r):
    a = [[t, hx(rb(r, r.choice([0, 1, 6, 40])))] for t in r.sample([6, 18, 25, 79, 27], r.randrange(3))]
    d = dict(code=r.choice([2, 2] + RESP), attrs=a)
    if r.random() < .4:
        d.update(tp=hx(bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 15, 16, 17, 48, 239, 240])))))
        if r.random() < .7: d['tag'] = r.randrange(0, 32)
    return d
def sys_hurt(r, how):
    if how == 'no': return {}
    if how == 'id': return dict(flip=[[1, r.randrange(1, 256)]])
    if how == 'auth': return dict(flip=[[4 + r.randrange(16), 1 << r.randrange(8)]])
    k = r.randrange(8)                                     # the contents, or anything else
    if k == 0: return dict(flip=[[0, r.choice([5, 1, 6, 41, 255])]])
    if k == 1: return dict(flip=[[21, 1 << r.randrange(8)]])
    if k == 2: return dict(flip=[[r.randrange(2, 4), 1 << r.randrange(8)]])
    if k == 3: return dict(cut=r.randrange(0, 60))
    return dict(flip=[[22 + r.randrange(40), 1 << r.randrange(8)]])

def s24(chk, histories):
    r, out = chk.rng, []
    for k, h in enumerate(histories):
        # the identifiers and secrets of the clients are the same or not
        nc = 3
        sec = rsecret(r)
        secrets = [hx(sec if k % 3 else rsecret(r)) for _ in range(nc)]
        one = r.randrange(256)
        bodies, number, ops, per = {}, {}, [], {}
        for x in h:
            if x['op'] == 'call':
                c = x['c'] - 1
                per[c] = per.get(c, 0) + 1
                number[len(number) + 1] = per[c]
                key = (x['body'], x['sealed'])
                if key not in bodies: bodies[key] = sys_call(r, x['sealed'], i=one if k % 5 else None)
                ops.append(dict(bodies[key], op='call', c=c))
            elif x['op'] == 'toserver':
                o = dict(op='toserver', c=x['c'] - 1, n=number[x['n']], how=sys_hurt(r, x['how']))
                if k % 3 and r.random() < .1: o['via'] = r.randrange(nc)
                ops.append(o)
            elif x['op'] == 'end': ops.append(dict(op='end', h=x['h'], answer=sys_answer(r)))
            elif x['op'] == 'toclient': ops.append(dict(op='toclient', c=x['c'] - 1, h=x['h'], how=sys_hurt(r, x['how'])))
            elif x['op'] == 'timeout': ops.append(dict(op='timeout', c=x['c'] - 1))
        linger = any(x['op'] == 'timeout' for x in h)
        out.append(dict(sid='C24-h%d' % k, clients=nc, secrets=secrets, ops=ops, timeout=1200 if linger else 5000, linger=linger))
    # a network that delivers every datagram once: every exchange succeeds
    for k in range(chk.n(30, 200)):
        ops, sec = [], [hx(rsecret(r)) for _ in range(2)]
        for n in range(1, 4):
            c = r.randrange(2)
            ops.append(dict(sys_call(r, r.random() < .5, i=n), op='call', c=c))
            m = sum(o['op'] == 'call' and o['c'] == c for o in ops)
            ops += [dict(op='toserver', c=c, n=m, how={}, wait=10000), dict(op='end', h=n, answer=sys_answer(r)), dict(op='toclient', c=c, h=n, how={}, wait=10000)]
        out.append(dict(sid='C24-clean%d' % k, clients=2, secrets=sec, ops=ops, timeout=20000, linger=True, clean=True))
    # the same with several exchanges at once, also with the same identifier
    for k in range(chk.n(30, 200)):
        nc = 2 + k % 3
        same = k % 3 != 2
        sec = rsecret(r)
        ops, i = [], r.randrange(256)
        ops += [dict(sys_call(r, r.random() < .5, i=i if same else (i + c) % 256), op='call', c=c) for c in range(nc)]
        order = r.sample(range(nc), nc)
        ops += [dict(op='toserver', c=c, n=1, how={}, wait=10000) for c in order]
        ends = r.sample(range(nc), nc)
        for h in ends:
            ops.append(dict(op='end', h=h + 1, answer=sys_answer(r)))
            if r.random() < .5: ops.append(dict(op='toclient', c=order[h], h=h + 1, how={}, wait=10000))
        done = {o['h'] for o in ops if o['op'] == 'toclient'}
        ops += [dict(op='toclient', c=order[h], h=h + 1, how={}, wait=10000) for h in r.sample(range(nc), nc) if h + 1 not in done]
        out.append(dict(sid='C24-meet%d' % k, clients=nc, secrets=[hx(sec if k % 2 else rsecret(r)) for _ in range(nc)], ops=ops, timeout=20000, linger=True, clean=True))
    # free running
    def free(name, n, m, timeout, clean, **kw):
        step = r.choice([0, 0, 7])                          # the identifiers of the clients coincide, or not
        calls = [[sys_call(r, r.random() < .5, i=(c * step + j) % 256 if clean else r.randrange(3)) for j in range(m)] for c in range(n)]
        sec = rsecret(r)
        out.append(dict(sid='C24-' + name, clients=n, secrets=[hx(sec if r.random() < .7 else rsecret(r)) for _ in range(n)], calls=calls, timeout=timeout, linger=True, clean=clean,
                        seed=r.getrandbits(50), auto=dict(answers=[sys_answer(r) for _ in range(4)], **kw)))
    for k in range(chk.n(8, 40)): free('freeclean%d' % k, r.randrange(2, 8), 8, 20000, True, delay=r.choice([0, 5, 20]))
    for k in range(chk.n(12, 60)): free('freebad%d' % k, r.randrange(2, 6), 10, 400, False, delay=r.choice([0, 5, 30]), lose=15, dup=30, corrupt=15 if k % 2 else 0, replay=30)
    return out
