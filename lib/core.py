"""Shared machinery of the checks: building the drivers from /repo, running TLC, evidence, verdicts."""
import os, re, sys, json, time, random, shutil, subprocess, hashlib, fcntl, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
TLA = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
FEATURES = ('md5', 'openssl')

class ToolError(Exception):
    pass
class MissingName(ToolError):
    """The crate lacks names that a dictionary module declares: the driver of the dictionaries does not compile."""
    def __init__(self, names, text):
        super().__init__(text); self.names = names
class Decided(Exception):
    """The check has found a violation and cannot go on."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def cargo_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    e.setdefault('HOME', '/root')
    if '/root/.cargo/bin' not in e.get('PATH', ''):
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.pop('RUSTFLAGS', None)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    return e

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def build_prims():
    """Compiles the native MD5/XOR evaluation of RadiusPrims.tla."""
    src = os.path.join(SPEC, 'java', 'RadiusPrims.java')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'classes-' + h)
    with Lock():
        if not os.path.exists(os.path.join(out, 'ok')):
            os.makedirs(out, exist_ok=True)
            r = subprocess.run(['javac', '-cp', TLA, '-d', out, src], capture_output=True, text=True)
            if r.returncode:
                raise ToolError('javac: ' + r.stderr)
            open(os.path.join(out, 'ok'), 'w').close()
    return out

def build_harness(feature, bins=None):
    """Builds the drivers against /repo's working tree with one crypto back end; returns the directory of binaries."""
    out = os.path.join(BUILD, 'bin-' + feature)
    with Lock():
        t = time.time()
        cmd = ['cargo', 'build', '--offline', '--locked', '--features', feature, '--bins']
        cwd = os.path.join(VERIF, 'harness')
        r = subprocess.run(cmd, cwd=cwd, env=cargo_env(), capture_output=True, text=True)
        if r.returncode and 'lock file' in r.stderr:     # the dependencies of /repo's crate have changed
            lock = open(os.path.join(cwd, 'Cargo.lock')).read()
            try:
                cmd.remove('--locked')
                r = subprocess.run(cmd, cwd=cwd, env=cargo_env(), capture_output=True, text=True)
            finally:
                open(os.path.join(cwd, 'Cargo.lock'), 'w').write(lock)
        if r.returncode:
            why = 'cargo build (%s) failed:\n%s' % (feature, r.stderr[-6000:])
            errors = re.findall(r'^error\[(\w+)\]: (.*)\n +--> (\S+?):', r.stderr, re.M)
            names = [m for c, m, f in errors if c == 'E0425' and f == 'src/dict_driver.rs' and '`dictroot::' in m]
            if names and len(names) == len(errors):
                raise MissingName(names, why)
            raise ToolError(why)
        os.makedirs(out, exist_ok=True)
        tgt = os.path.join(BUILD, 'target', 'debug')
        for b in os.listdir(os.path.join(VERIF, 'harness', 'src', 'bin')):
            b = b[:-3]
            tmp = os.path.join(out, b + '.new')
            shutil.copy2(os.path.join(tgt, b), tmp)
            os.replace(tmp, os.path.join(out, b))
        log('built drivers (%s) in %.1f s' % (feature, time.time() - t))
    return out

def scratch(name):
    d = os.path.join(BUILD, 'run', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

class TLCResult:
    pass

def tlc(module, cfg=None, env=None, workers='auto', timeout=800, extra=(), xmx='6g', cwd=None, deque=False, cfg_text=None,
        deadlock=True):
    """Runs TLC.  kind: ok, deadlock, invariant, property, postcondition, error."""
    cls = build_prims()
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch_root())
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    if cfg_text is not None:
        cfg = os.path.join(meta, module + '.cfg')
        open(cfg, 'w').write(cfg_text)
    else:
        cfg = os.path.join(SPEC, cfg or module + '.cfg')
    os.makedirs(os.path.join(meta, '.tlaplus'))
    with open(os.path.join(meta, '.tlaplus', 'esc.txt'), 'w') as f:    # no look-up of TLC's statistics host
        f.write('NO_STATISTICS\n')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss128m', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet',
           '-Djava.io.tmpdir=' + meta, '-Duser.home=' + meta]
    if deque:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', ':'.join([cls, TLA, CM]), 'tlc2.TLC', '-config', cfg, '-metadir', os.path.join(meta, 'states'),
            '-workers', str(workers), '-noGenerateSpecTE']
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.out = p.stdout + p.stderr
    r.wall = time.time() - t
    r.rc = p.returncode
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.out)
    r.generated, r.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    if 'Model checking completed. No error has been found' in r.out or (p.returncode == 0):
        r.kind = 'ok'
    elif 'Deadlock reached' in r.out:
        r.kind = 'deadlock'
    elif re.search(r'Error: Invariant .* is violated', r.out):
        r.kind = 'invariant'
    elif 'Temporal properties were violated' in r.out or re.search(r'Action property .* is violated', r.out) \
            or re.search(r'Error: .*property.* violated', r.out):
        r.kind = 'property'
    elif 'ostcondition' in r.out and 'false' in r.out.lower():
        r.kind = 'postcondition'
    else:
        r.kind = 'error'
    return r

def scratch_root():
    d = os.path.join(BUILD, 'tmp')
    os.makedirs(d, exist_ok=True)
    return d

def last_state_int(out, var):
    m = re.findall(r'^(?:/\\ )?%s = (-?\d+)' % var, out, re.M)
    return int(m[-1]) if m else None

class Check:
    """One run of one property's check."""
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.dir = scratch(pid)
    @property
    def thorough(self):
        return self.tier == 'thorough'
    def n(self, quick, thorough):
        return thorough if self.thorough else quick
    def violation(self, what, data):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations) + 1))
        json.dump({'property': self.pid, 'what': what, 'seed': self.seed, 'tier': self.tier, 'data': data}, open(path, 'w'), indent=1)
        self.violations.append((what, path))
        log('violation:', what)
        return path
    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)
    def model(self, module, cfg=None, expect='ok', **kw):
        """Model checks a specification module; its failing to hold is an error of the specification, not of the code."""
        r = tlc(module, cfg, **kw)
        if r.kind != expect:
            raise ToolError('model %s/%s: expected %s, got %s\n%s' % (module, cfg, expect, r.kind, r.out[-4000:]))
        if expect == 'ok':
            self.states += r.distinct
            self.transitions += r.generated
        self.extra.setdefault('models', []).append(
            {'module': module, 'cfg': cfg or module + '.cfg', 'result': r.kind, 'distinct_states': r.distinct, 'states_generated': r.generated, 'wall_s': round(r.wall, 1)})
        log('model %s %s: %s, %d distinct states, %.1f s' % (module, cfg or '', r.kind, r.distinct, r.wall))
        return r
    def prove(self, module, timeout=600):
        """Has TLAPS check the proofs of a module; they speak of the specification only, so what it cannot redo is recorded."""
        d = tempfile.mkdtemp(prefix='tlapm-', dir=scratch_root())
        try:
            for f in os.listdir(SPEC):
                if f.endswith('.tla'): shutil.copy(os.path.join(SPEC, f), d)
            t = time.time()
            p = subprocess.run(['tlapm', '--threads', '4', '--stretch', '4', '-I', '.', module + '.tla'], cwd=d, capture_output=True, text=True, timeout=timeout)
            m = re.search(r'All (\d+) obligations proved', p.stdout + p.stderr)
            bad = re.search(r'(\d+/\d+) obligations failed', p.stdout + p.stderr)
            res = m.group(1) + ' obligations proved' if m else bad.group(1) + ' obligations not proved' if bad else 'not checked'
        except (OSError, subprocess.TimeoutExpired) as e:
            res = 'not checked: %s' % type(e).__name__
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.extra.setdefault('proofs', []).append({'module': module, 'result': res, 'wall_s': round(time.time() - t, 1)})
        log('proof %s: %s' % (module, res))
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'trace_events': self.events, 'samples': self.samples or ['none']}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        tmp = os.path.join(EVID, self.pid + '.json.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))
        for f in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f))
        for what, path in self.violations:
            print('# ' + what.replace('\n', ' ')[:400])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()
        shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0

DICT = {'DICT_ATTRS': os.path.join(VERIF, 'dict', 'attributes.json'), 'DICT_CONSTS': os.path.join(VERIF, 'dict', 'constants.json')}

def codec_traces(chk, sessions, feature, name='codec', dict_env=None, binary=None, validate=True):
    """Runs codec sessions on the implementation built with `feature` and validates the traces with TLC."""
    bins = None if binary else build_harness(feature)
    script = os.path.join(chk.dir, '%s-%s.script' % (name, feature))
    trace = os.path.join(chk.dir, '%s-%s.trace' % (name, feature))
    with open(script, 'w') as f:
        for s in sessions:
            f.write(json.dumps(s) + '\n')
    if os.path.exists(trace):
        os.remove(trace)
    how = None
    try:
        p = subprocess.run([binary or os.path.join(bins, 'codec'), script, trace], capture_output=True, text=True, timeout=chk.n(240, 1500))
        if p.returncode:
            how = 'the process died (%d)' % p.returncode
    except subprocess.TimeoutExpired:
        how = 'the process did not come to an end'
    if how:
        # the driver writes the trace session by session, so the one after the last written is the one that failed
        done = len(open(trace).read().splitlines()) if os.path.exists(trace) else 0
        if done >= len(sessions):
            raise ToolError('codec driver: %s after the last session' % how)
        chk.violation('%s back end: %s in session %s' % (feature, how, sessions[done]['sid']), {'backend': feature, 'session': sessions[done]})
        return trace
    if validate:
        validate_codec(chk, sessions, trace, feature, dict_env)
    return trace

def validate_codec(chk, sessions, trace, feature, dict_env=None):
    env = dict(DICT)
    env.update(dict_env or {})
    env['TRACE'] = trace
    r = tlc('TraceCodec', env=env, timeout=800)
    nev = sum(len(s['ops']) for s in sessions)
    if r.kind == 'ok':
        chk.traces += len(sessions)
        chk.events += nev
        log('validated %d sessions, %d events (%s) in %.1f s' % (len(sessions), nev, feature, r.wall))
        return True
    si, l = last_state_int(r.out, 'si'), last_state_int(r.out, 'l')
    lines = open(trace).read().splitlines()
    if r.kind == 'deadlock' and si:
        t = json.loads(lines[si - 1])
        chk.violation('%s back end: session %s is not a behaviour of the specification at event %d: %s' %
                      (feature, t['sid'], l, json.dumps(t['ev'][l - 1])[:300]),
                      {'backend': feature, 'session': sessions[si - 1], 'trace': t, 'event': l})
        return False
    raise ToolError('TLC failed on the trace of %s:\n%s' % (chk.pid, r.out[-3000:]))
