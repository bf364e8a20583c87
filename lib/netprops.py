"""Checks of the server (C13-C17), the client (C18, C19) and both together (C24)."""
import json, os, re, resource, socket, subprocess
import core, gennet
from core import FEATURES, ToolError, log, tlc
from props import PROPS, prop, INFO, m_wire

# which rejections of the monitor break which property
def breaks(pid, why, chk):
    w = set(why)
    shut = 'afterShutdown' in w
    if pid == 'C13': return bool(w & {'overlap', 'duplicateHandled'})
    if pid == 'C14': return 'missing' in w and ('reuse' in w or {'afterBad', 'idle'} <= w)
    if pid == 'C15': return bool(w & {'ungated', 'ungatedOrWrongContent', 'unexpectedReply'}) or ('afterBad' in w and bool(w & {'missing', 'returnedEarly', 'aborted'}))
    if pid == 'C16': return bool(w & {'missing', 'handledTwice', 'wrongContent', 'returnedEarly', 'replyFailed', 'replyLost'}) or ('aborted' in w and not shut)
    if pid == 'C17': return bool(w & {'startWhileOff', 'notReturned', 'returnedError', 'returnedEarly'}) or \
        (shut and bool(w & {'aborted', 'replyFailed', 'replyLost', 'missing', 'overlap', 'duplicateHandled', 'handledTwice'}))
    raise ToolError(pid)

def run_driver(chk, binary, scenarios, feature, name, par, logs=None, files=None):
    timeout = chk.n(330, 3000)
    bins = core.build_harness(feature)
    script = os.path.join(chk.dir, '%s-%s.script' % (name, feature))
    trace = os.path.join(chk.dir, '%s-%s.trace' % (name, feature))
    with open(script, 'w') as f:
        for s in scenarios: f.write(json.dumps(s) + '\n')
    try:
        p = subprocess.run([os.path.join(bins, binary), script, trace, str(par)], capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, LOG_TO=logs) if logs else None,
                           preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (files, files))) if files else None)
    except subprocess.TimeoutExpired:
        # the driver itself waits for nothing longer than its limits: the code under test holds its threads
        chk.violation('%s back end: the %s process did not come to an end' % (feature, binary), {'backend': feature, 'sessions': [s['sid'] for s in scenarios]})
        raise core.Decided()
    if p.returncode < 0:
        return None, trace, p
    if p.returncode: raise ToolError('%s driver failed (%d): %s' % (binary, p.returncode, p.stderr[-2000:]))
    return [json.loads(x) for x in open(trace)], trace, p

def validate_sessions(chk, module, recs, trace, scenarios, judge, feature, env=None, what='trace'):
    """TLC reads all traces; a rejected one is reported by REJECTED lines, the others run to their end."""
    r = tlc(module, env=dict(env or {}, TRACE=trace), timeout=800)
    if r.kind != 'ok': raise ToolError('TLC failed on %s: %s' % (trace, r.out[-3000:]))
    rej = {}
    for m in re.finditer(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', r.out):
        rej[int(m.group(1))] = (int(m.group(2)), sorted(re.findall(r'"(\w+)"', m.group(3))))
    want = sum(len(x['ev']) + 1 if i + 1 not in rej else rej[i + 1][0] for i, x in enumerate(recs))
    if r.distinct != want: raise ToolError('TLC consumed %d states of %s instead of %d: %s' % (r.distinct, module, want, r.out[-1500:]))
    good = [x for i, x in enumerate(recs) if i + 1 not in rej and not x.get('cut')]
    chk.traces += len(good); chk.events += sum(len(x['ev']) for x in good)
    log('%s: %d traces (%s), %d rejected, %.1f s' % (module, len(recs), feature, len(rej), r.wall))
    foreign = 0
    for si, (l, why) in sorted(rej.items()):
        if 'driver' in why: raise ToolError('the driver recorded an impossible trace: %s event %d' % (recs[si - 1]['sid'], l))
        if judge(why):
            if len(chk.violations) < 3:
                ev = recs[si - 1]['ev']
                chk.violation('%s back end: %s %s is not a behaviour of the specification at event %d (%s): %s' %
                              (feature, what, recs[si - 1]['sid'], l, ', '.join(why), json.dumps(ev[l - 1])[:200]),
                              {'backend': feature, 'why': why, 'scenario': scenarios[si - 1], 'events': ev[:l], 'event': l})
        else:
            foreign += 1
            log('trace %s rejected for another reason: %s' % (recs[si - 1]['sid'], why))
    cut = sum(bool(x.get('cut')) for x in recs)
    if foreign or cut:
        chk.extra['traces_cut_short'] = chk.extra.get('traces_cut_short', 0) + cut
        chk.extra['rejected_for_other_properties'] = chk.extra.get('rejected_for_other_properties', 0) + foreign
    if (cut or any(x.get('failed') for x in recs)) and not rej:
        raise ToolError('a scenario waited in vain although its trace is a behaviour of the specification: %s' % [x['sid'] for x in recs if x.get('failed')])
    return rej

def projections(rec, scenario):
    """The trace of a scenario with many sources, seen from each source alone: keys do not interfere in the specification,
    so a trace is a behaviour exactly if all its projections are, and TLC judges those in linear time."""
    out = []
    for s in range(1, len(scenario['sources'])):
        keep = {0, -1, s}
        hs = {e['h'] for e in rec['ev'] if e['e'] == 'start' and e['s'] in keep}
        ev = [e for e in rec['ev'] if (e['s'] in keep if 's' in e else e['h'] in hs if 'h' in e else True)]
        out.append(dict(rec, sid='%s/%d' % (rec['sid'], s), ev=ev))
    return out

def server_run(chk, scenarios, feature, name='server', par=24):
    if not scenarios: return
    recs, trace, p = run_driver(chk, 'server', scenarios, feature, name, par)
    if recs is None:
        chk.violation('the server process died (%d)' % p.returncode, {'scenarios': [s['sid'] for s in scenarios], 'stderr': p.stderr[-2000:]}); return
    chk.sample({'scenario': scenarios[0]['sid'], 'events': [e if e['e'] != 'start' else {k: e[k] for k in ('e', 'h', 's', 'raddr')} for e in recs[0]['ev'][:12]]})
    if any(x.get('split') for x in scenarios):
        both = [(y, x) for r, x in zip(recs, scenarios) for y in (projections(r, x) if x.get('split') else [r])]
        recs, scenarios = [y for y, _ in both], [x for _, x in both]
        with open(trace, 'w') as f:
            for y in recs: f.write(json.dumps(y) + '\n')
    validate_sessions(chk, 'TraceServer', recs, trace, scenarios, lambda why: breaks(chk.pid, why, chk), feature)

VARIANTS = {'keyIgnoresSource': ('{"ok"}', '{"ok"}', 1), 'forgetOnRun': ('{"ok"}', '{"ok"}', 2), 'loopOutlivesRun': ('{"ok"}', '{"ok"}', 2),
            'abortOnShutdown': ('{"ok"}', '{"ok"}', 1), 'skipAuth': ('{"unauth"}', '{"ok"}', 1), 'registerFirst': ('{"ok", "malformed"}', '{"ok"}', 1),
            'checkThenInsert': ('{"ok"}', '{"ok"}', 1), 'queueDuplicate': ('{"ok"}', '{"ok"}', 1), 'sharedBuffer': ('{"ok"}', '{"ok"}', 1),
            'leakOnPanic': ('{"ok"}', '{"ok", "panic"}', 1), 'leakOnError': ('{"ok"}', '{"ok", "err"}', 1)}
def m_server(chk, variants, live=False):
    chk.model('MCServer', 'MCServerThorough.cfg' if chk.thorough else 'MCServer.cfg', timeout=3000)
    if chk.thorough:
        chk.model('MCServer', 'MCServerClasses.cfg', timeout=3000)
        chk.prove('ServerProof')                                  # any number of keys, datagrams, tasks and runs
    if live or chk.thorough:
        chk.model('MCServer', 'MCServerLive.cfg', timeout=3000)
        chk.model('MCServer', 'MCServerSerial.cfg', expect='property')
    for v in (VARIANTS if chk.thorough else variants):          # the monitor finds the faulty server out
        c, o, runs = VARIANTS[v]
        chk.model('MCServer', expect='invariant', cfg_text='SPECIFICATION Spec\nCONSTANTS\n Key <- Keys2\n Variant = "%s"\n MaxSend = 3\n MaxRun = %d\n Classes0 = %s\n'
                  ' Outcomes = %s\nINVARIANTS MonitorAccepts\nCHECK_DEADLOCK FALSE\n' % (v, runs, c, o))
        chk.extra['models'][-1]['cfg'] = 'faulty variant ' + v

SERVER_ASSUME = ['loopback UDP neither loses nor reorders the datagrams of a scenario; what has to happen happens within 10 s',
                 'negative observations (nothing was handled) rest on a later request having been served and a further delay of 30 ms or more',
                 'real interleavings are those the runtime produced, including forced rendezvous of tasks before registration; the specification covers all within its bounds']

def v6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM); s.bind(('::1', 0)); s.close(); return True
    except OSError: return False

def halves(chk, scenarios, name, par=24):
    for k, f in enumerate(FEATURES): server_run(chk, scenarios[k::2], f, name, par)

@prop('C13')
def c13(chk):
    chk.assumptions = SERVER_ASSUME
    m_server(chk, ['checkThenInsert', 'queueDuplicate', 'forgetOnRun'])
    halves(chk, gennet.s13(chk), 'hist')
    halves(chk, gennet.s13_race(chk), 'race', par=1)
@prop('C14')
def c14(chk):
    chk.assumptions = SERVER_ASSUME
    m_server(chk, ['leakOnPanic', 'leakOnError', 'registerFirst'])
    halves(chk, gennet.s14(chk), 'hist')
@prop('C15')
def c15(chk):
    chk.assumptions = SERVER_ASSUME
    m_server(chk, ['skipAuth'])
    sc = gennet.s15(chk)
    for f in FEATURES: server_run(chk, sc, f)
@prop('C16')
def c16(chk):
    chk.assumptions = SERVER_ASSUME
    m_server(chk, ['sharedBuffer', 'keyIgnoresSource'], live=True)
    halves(chk, gennet.s16(chk, v6()), 'hist')
    halves(chk, gennet.s16_race(chk), 'race', par=1)
@prop('C17')
def c17(chk):
    chk.assumptions = SERVER_ASSUME
    m_server(chk, ['loopOutlivesRun', 'abortOnShutdown', 'forgetOnRun'], live=True)
    halves(chk, gennet.s17(chk), 'hist')
    halves(chk, gennet.s17_flood(chk), 'flood', par=3)

SPEC_SERVER = 'TLA+ specification of the server (Server, ServerMonitor) model checked with TLC, faulty variants included; histories enumerated by TLC replayed on the real server and its traces validated by TLC (TraceServer)'
NOTE_SERVER = 'All interleavings of up to 3 (thorough: 4) datagrams are model checked; the real server is driven through histories enumerated from the specification and forced races, and every recorded trace is judged by TLC. Trusts loopback UDP, tokio, the driver and TLC.'
for p in ('C13', 'C14', 'C15', 'C16', 'C17'): INFO[p] = (SPEC_SERVER, NOTE_SERVER)

# ------------------------------------------------------------------ client
CLIENT_WHY = {'C18': {'strayDatagram', 'sentUnencodable', 'wrongDatagram', 'sentTwice', 'notSent', 'panic', 'wrongPacket', 'notAuthentic', 'foreignAnswer',
                      'answerRefused', 'answerIgnored', 'earlyTimeout', 'noResult', 'wrongResult'},
              'C19': {'notAuthentic', 'wrongPacket'}}
def client_run(chk, sessions, feature, par=12, name='client', files=None):
    recs, trace, p = run_driver(chk, 'client', sessions, feature, name, par, files=files)
    if recs is None:
        chk.violation('the client process died (%d)' % p.returncode, {'stderr': p.stderr[-2000:]}); return
    chk.sample({'session': sessions[0]['sid'], 'events': recs[0]['ev'][:4]})
    validate_sessions(chk, 'TraceClient', recs, trace, sessions, lambda why: bool(set(why) & CLIENT_WHY[chk.pid]), feature)
    chk.extra['exchanges'] = chk.extra.get('exchanges', 0) + sum(len(s['calls']) for s in sessions)
def m_client(chk, variants):
    chk.model('MCClient', 'MCClient.cfg')
    if chk.thorough: chk.prove('ClientProof')                     # any requests, messages and verification
    txt = open(os.path.join(core.SPEC, 'MCClient.cfg')).read()
    for v in variants:
        chk.model('MCClient', expect='invariant', cfg_text=txt.replace('"spec"', '"%s"' % v))
        chk.extra['models'][-1]['cfg'] = 'faulty variant ' + v
CLIENT_ASSUME = ['loopback UDP delivers; an answer sent at once arrives within the 3 s timeout of its exchange',
                 'a timeout is not judged late unless the exchange has not ended 10 s after it']
@prop('C18')
def c18(chk):
    chk.assumptions = CLIENT_ASSUME
    m_client(chk, ['trusting', 'resend', 'unconnected', 'early', 'skipping'])
    sc, soak = gennet.s18(chk, v6()), gennet.s18_soak(chk, v6())
    for f in FEATURES:
        client_run(chk, sc, f)
        client_run(chk, soak, f, par=5, name='soak', files=120)       # with few file descriptors
@prop('C19')
def c19(chk):
    chk.assumptions = CLIENT_ASSUME
    m_client(chk, ['trusting'])
    m_wire(chk)
    sc = gennet.s19(chk, v6())
    for f in FEATURES: client_run(chk, sc, f)
SPEC_CLIENT = 'TLA+ specification of the client exchange (Client over Wire) model checked with TLC, faulty variants included; exchanges of the real client with a scripted server recorded and validated by TLC (TraceClient)'
NOTE_CLIENT = 'The exchange is model checked against every environment within bounds; every recorded exchange of the real client is judged octet by octet by TLC. Trusts loopback UDP, tokio timers, the driver and TLC.'
for p in ('C18', 'C19'): INFO[p] = (SPEC_CLIENT, NOTE_CLIENT)

# ------------------------------------------------------------------ what is logged
def secrets_in_logs(chk):
    """C22: the log records that server and client write while everything goes wrong, judged by TraceLog."""
    for f in FEATURES:
        for binary, sc in (('server', gennet.s22(chk)), ('client', gennet.s22_client(chk))):
            logs = os.path.join(chk.dir, 'logs-%s-%s' % (binary, f))
            recs, _, p = run_driver(chk, binary, sc, f, 'log-' + binary, 12, logs)
            if recs is None: raise ToolError('%s driver died' % binary)
            lines = open(logs).read().split()
            lines += [e['text'] for x in recs for e in x['ev'] if e.get('text')]            # error texts of the client
            lines += sorted({x.encode().hex() for x in (p.stdout + p.stderr).splitlines() if x})   # what is printed
            secrets = sorted({o['v']['ok'] for s in sc for o in s.get('ops', []) if o['op'] == 'secret' and isinstance(o['v'], dict) and o['v']['ok']} |
                             {c['secret'] for s in sc for c in s.get('calls', [])})
            chk.extra['log_records'] = chk.extra.get('log_records', 0) + len(lines)
            if binary == 'server' and len(lines) < 20: log('only %d log records' % len(lines))
            ev = [dict(e='secret', v=x) for x in secrets]
            tr = [dict(sid='C22-%s-%d' % (binary, k), ev=ev + [dict(e='log', text=x) for x in lines[k:k + 40]]) for k in range(0, len(lines), 40)]
            # the specification finds secrets out: a record that shows one is rejected
            known = [dict(sid='shown', ev=[dict(e='secret', v=secrets[0]), dict(e='log', text=(', '.join(str(b) for b in bytes.fromhex(secrets[0]))).encode().hex())])]
            trace = os.path.join(chk.dir, 'log-%s-%s.events' % (binary, f))
            open(trace, 'w').write(json.dumps(known[0]) + '\n')
            r = tlc('TraceLog', env=dict(TRACE=trace))
            if 'REJECTED' not in r.out: raise ToolError('TraceLog does not see a secret: ' + r.out[-2000:])
            if not tr: continue
            open(trace, 'w').write(''.join(json.dumps(x) + '\n' for x in tr))
            validate_sessions(chk, 'TraceLog', tr, trace, tr, lambda why: True, f, what='log')

# ------------------------------------------------------------------ clients, network and server together
SYSTEM_VARIANTS = ('trusting', 'nodedup', 'unsealed')
def system_histories(chk, n):
    """Histories of System.tla drawn by TLC's simulator."""
    r = tlc('SystemSim', 'SystemSim.cfg', workers=1, extra=['-simulate', 'num=%d' % n, '-depth', '18', '-seed', str(chk.seed)], timeout=600)
    hs = sorted(set(x for x in r.out.splitlines() if x.startswith('"HISTORY ')))
    if not hs: raise ToolError('no histories: ' + r.out[-2000:])
    return [json.loads(json.loads(x)[len('HISTORY '):]) for x in hs]
FINDING_C24 = 'a Tunnel-Password a handler put into its answer is not given back by rfc2868::lookup_tunnel_password on the packet Client::send_packet returns'
@prop('C24')
def c24(chk):
    chk.assumptions = ['loopback UDP delivers between the proxy, the clients and the server; in undisturbed sessions every exchange ends within 20 s',
                       'cryptography is symbolic in System.tla: a digest cannot be made for other contents without the secret']
    chk.model('System', 'SystemThorough.cfg' if chk.thorough else 'System.cfg', timeout=3000)
    if chk.thorough: chk.prove('SystemProof')
    txt = open(os.path.join(core.SPEC, 'System.cfg')).read()
    for v in SYSTEM_VARIANTS:
        chk.model('System', expect='invariant', cfg_text=txt.replace('"spec"', '"%s"' % v))
        chk.extra['models'][-1]['cfg'] = 'faulty variant ' + v
    hs = system_histories(chk, chk.n(300, 3000))
    chk.rng.shuffle(hs)
    hs = hs[:chk.n(160, 1600)]
    sc = gennet.s24(chk, hs)
    chk.extra['specification_histories_replayed'] = len(hs)
    lost = seen = 0
    for k, f in enumerate(FEATURES):
        mine = sc if chk.thorough else sc[k::2]
        recs, trace, p = run_driver(chk, 'system', mine, f, 'system', 64)
        if recs is None:
            chk.violation('the process died (%d)' % p.returncode, {'stderr': p.stderr[-2000:]}); continue
        chk.sample({'session': mine[0]['sid'], 'events': recs[0]['ev'][:4]})
        validate_sessions(chk, 'TraceSystem', recs, trace, mine, lambda why: True, f)
        rs = [e for x in recs for e in x['ev'] if e['e'] == 'result']
        for e in rs:
            if e['tp'] not in ('none', 'error'):
                seen += 1; lost += e['lookup'] != e['tp']
        cnt = chk.extra.setdefault('results', {})
        for e in rs: cnt[e['kind']] = cnt.get(e['kind'], 0) + 1
    # the listed finding: lookup on the returned packet (KNOWN_FINDINGS.txt)
    if lost:
        chk.findings.append('%s (%d of %d)' % (FINDING_C24, lost, seen))
INFO['C24'] = ('TLA+ specification of clients, hostile network and server (System) model checked with TLC, faulty variants included; histories drawn from it replayed on the real client and server through a controlled network, traces validated by TLC (TraceSystem)',
               'Symbolic cryptography in the model; every recorded history of the real client and server is judged by TLC. Trusts loopback UDP, tokio, the driver and TLC.')
