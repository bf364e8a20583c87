"""The checks, one per property."""
import json, os, subprocess
import core, gen
from core import codec_traces, FEATURES, ToolError, log

PROPS = {}
INFO = {}         # property -> (technique, level note)
def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d

CODEC_ASSUME = ['MD5 itself is as specified in RadiusPrims.tla (checked against RFC 1321 by PrimsTest)',
                'the code is exercised on the recorded sessions; the specification is explored within the bounds of the MC configurations']

def codec_prop(pid, generator, models=()):
    @prop(pid)
    def run(chk):
        for m in models:
            m(chk)
        chk.assumptions = CODEC_ASSUME
        sessions = generator(chk)
        for s in sessions[:2]:
            chk.sample({'sid': s['sid'], 'ops': s['ops'][:6]})
        for f in FEATURES:
            codec_traces(chk, sessions, f)
        chk.extra['sessions_per_backend'] = len(sessions)


def m_wire(chk):
    chk.model('MCWire', 'MCWireThorough.cfg' if chk.thorough else 'MCWire.cfg', timeout=3000)
    chk.model('MCWire', 'MCWireReach.cfg', expect='invariant')
def m_packet(chk):
    chk.model('MCPacket', 'MCPacketThorough.cfg' if chk.thorough else 'MCPacket.cfg', timeout=3000)
def m_values(chk):
    chk.model('MCValues', 'MCValuesThorough.cfg' if chk.thorough else 'MCValues.cfg', timeout=3000)
def m_utf8(chk):
    chk.model('MCValues', 'MCUtf8Thorough.cfg' if chk.thorough else 'MCUtf8.cfg', timeout=3000)

def m_prims(chk):
    chk.model('PrimsTest')
def m_fixed(chk):
    chk.model('MCFixed', 'MCFixedThorough.cfg' if chk.thorough else 'MCFixed.cfg', timeout=3000)
def m_dictionary(chk):
    chk.model('MCDictionary', 'MCDictionaryThorough.cfg' if chk.thorough else 'MCDictionary.cfg', timeout=3000)
def m_secret(chk):
    chk.model('MCSecret', 'MCSecretThorough.cfg' if chk.thorough else 'MCSecret.cfg', timeout=3000)
    chk.model('MCSecret', 'MCSecretLeak.cfg', expect='invariant')

def spec_histories(chk):
    """The histories that TLC enumerates from MCPacket, as scripts."""
    r = chk.model('MCPacket', 'GenPacketThorough.cfg' if chk.thorough else 'GenPacket.cfg', timeout=3000)
    out = []
    for i, line in enumerate(sorted(set(x for x in r.out.splitlines() if x.startswith('"HISTORY ')))):
        hist = json.loads(json.loads(line)[len('HISTORY '):])
        ops, objs = [dict(e='new', o=1, code=1, id=7, secret='73')], [1]
        for h in hist:
            vx = ''.join('%02x' % x for x in h.get('v', []))
            if h['e'] == 'add': ops.append(dict(e='add', o=h['o'], t=h['t'], v=vx))
            elif h['e'] == 'ext': ops.append(dict(e='ext', o=h['o'], avs=[[h['t'], vx], [h['u'], vx + vx]]))
            elif h['e'] == 'del': ops.append(dict(e='del', o=h['o'], t=h['t']))
            elif h['e'] == 'setid': ops.append(dict(e='setid', o=h['o'], id=h['id']))
            elif h['e'] == 'clone': ops.append(dict(e='clone', o=h['o'], n=h['n'])); objs.append(h['n'])
            elif h['e'] == 'mkresp': ops.append(dict(e='mkresp', o=h['o'], n=h['n'], code=2)); objs.append(h['n'])
            ops += [dict(e='get', o=o) for o in objs]
        for o in objs:
            ops += [dict(e='enc', o=o, r='w'), dict(e='dec', o=9, b={'r': 'w'}, secret='73'), dict(e='get', o=9)]
        out.append({'sid': '%s-h%d' % (chk.pid, i + 1), 'ops': ops})
    if not out:
        raise ToolError('no histories from MCPacket')
    chk.extra['histories_from_specification'] = len(out)
    return out

codec_prop('C01', lambda c: gen.g_encode(c, within=True) + spec_histories(c), [m_wire])
codec_prop('C02', gen.g_decode, [m_wire])
codec_prop('C03', gen.g_encode, [m_wire])
codec_prop('C04', gen.g_authreq, [m_prims, m_wire])
codec_prop('C05', gen.g_authresp, [m_wire])
codec_prop('C06', lambda c: spec_histories(c) + gen.g_history(c), [m_packet])
codec_prop('C07', gen.g_userpw, [m_prims, m_values])
codec_prop('C08', gen.g_tunnelpw, [m_values])
codec_prop('C09', gen.g_fixed, [m_fixed])
codec_prop('C10', gen.g_text, [m_values, m_utf8])
codec_prop('C11', gen.g_vsa, [m_fixed])
codec_prop('C12', gen.g_dict, [m_dictionary])
codec_prop('C22', gen.g_secret, [m_secret, lambda c: netprops.secrets_in_logs(c)])

@prop('C20')
def c20(chk):
    m_prims(chk); m_values(chk); m_wire(chk)
    sessions = gen.g_backend(chk)
    chk.sample({'sid': sessions[0]['sid'], 'ops': sessions[0]['ops'][:6]})
    tr = [codec_traces(chk, sessions, f) for f in FEATURES]
    if chk.violations: return
    r = core.tlc('TraceEquiv', env={'TRACE': tr[0], 'TRACE2': tr[1]})
    if r.kind == 'ok':
        chk.extra['sessions_compared'] = len(sessions)
        return
    si, l = core.last_state_int(r.out, 'si'), core.last_state_int(r.out, 'l')
    if r.kind != 'deadlock' or not si: raise ToolError(r.out[-3000:])
    ev = [json.loads(open(t).read().splitlines()[si - 1])['ev'][l - 1] for t in tr]
    chk.violation('the back ends differ in session %s at event %d' % (sessions[si - 1]['sid'], l), {'session': sessions[si - 1], 'md5': ev[0], 'openssl': ev[1]})

@prop('C23')
def c23(chk):
    chk.model('MCFresh')
    for f in FEATURES:
        bins = core.build_harness(f)
        lines = []
        for i in range(3):      # several processes, each with several threads
            out = os.path.join(chk.dir, 'fresh-%s-%d' % (f, i))
            p = subprocess.run([os.path.join(bins, 'fresh'), str(chk.n(6000, 24000)), '4', out], capture_output=True, text=True, timeout=600)
            if p.returncode:
                chk.violation('constructing packets failed: ' + p.stderr[-500:], {}); return
            lines += open(out).read().splitlines()
        if f == FEATURES[0] or chk.thorough:      # many more, for repetitions
            out = os.path.join(chk.dir, 'fresh-bulk')
            p = subprocess.run([os.path.join(bins, 'fresh'), str(chk.n(320000, 1600000)), '8', out, 'bulk'], capture_output=True, text=True, timeout=600)
            if p.returncode: chk.violation('constructing packets failed: ' + p.stderr[-500:], {}); return
            every = sorted(a for x in open(out) for a in json.loads(x)['auths'])
            lines += [json.dumps({'k': 'bulk', 'auths': every[max(0, k - 1):k + 1000]}) for k in range(0, len(every), 1000)]
            chk.extra['authenticators_compared'] = chk.n(320000, 1600000)
        trace = os.path.join(chk.dir, 'fresh-%s' % f)
        open(trace, 'w').write('\n'.join(lines) + '\n')
        chk.sample(json.loads(lines[0])); chk.sample(json.loads(lines[1]))
        r = core.tlc('TraceFresh', env={'TRACE': trace})
        if r.kind == 'ok':
            chk.traces += 12; chk.events += len(lines)
        elif r.kind == 'invariant':
            import re
            inv = re.search(r'Invariant (\w+) is violated', r.out).group(1)
            if inv == 'Enough': raise ToolError('fresh driver recorded too little')
            news = [json.loads(x) for x in lines[:20]]
            chk.violation('%s back end: %s does not hold of %d recorded constructions' % (f, inv, len(lines)), {'invariant': inv, 'first': news})
            return
        else: raise ToolError(r.out[-3000:])

import netprops

# ------------------------------------------------------------------ code generator
@prop('C21')
def c21(chk):
    import gendict, netprops
    chk.assumptions = ['dictionary names are words of letters, digits, hyphens and dots as in the RFC dictionaries; their Rust identifiers are compared ignoring underscores',
                       'the compiled modules are exercised with the md5 back end (quick) or both (thorough)']
    chk.model('MCDict')
    r, g = chk.rng, gendict.build_generator()
    core.build_harness(FEATURES[0])                              # fails first if /repo itself does not build
    work = os.path.join(chk.dir, 'gen')
    events, modules, attrs, consts = [], [], [], []
    def missing(what, data): chk.violation(what, data)
    def adopt(files, d, pre):
        """Adds the generated modules of a run; False if something is missing."""
        for f in files:
            p = os.path.join(d, 'out', f['mod'] + '.rs')
            if not os.path.exists(p):
                missing('no module was generated for %s' % f['mod'], {'dictionary': f['text']}); return False
            ids = gendict.idents(p)
            modules.append((f['mod'], p))
            for a in f['attrs']:
                c = ids.get(gendict.norm(a['raw']) + 'TYPE', [])
                if len(c) != 1:
                    missing('no type constant was generated for attribute %s' % a['raw'], {'dictionary': f['text'], 'module': open(p).read()[:4000]}); return False
                attrs.append(dict(name=a['raw'], mod=f['mod'], fn=c[0][:-5].lower(), tconst=c[0], num=a['num'], kind=a['kind'], len=a['len']))
            for v in f['values']:
                c = ids.get(v['const'], [])
                if len(c) != 1:
                    missing('no constant was generated for value %s of %s' % (bytes.fromhex(v['name']).decode(), bytes.fromhex(v['attr']).decode()),
                            {'dictionary': f['text'], 'module': open(p).read()[:4000]}); return False
                consts.append(dict(mod=f['mod'], const=c[0], attr=bytes.fromhex(v['attr']).decode(), value=bytes.fromhex(v['name']).decode(), hex=v['n']))
        return True
    # random dictionaries, in runs of one to three
    plans = [('all',), ('all', 'some'), ('some', 'values'), ('some', 'values', 'values'), ('some', 'some', 'some')] * chk.n(3, 12) + [('many', 'values')] * chk.n(1, 4)
    for i, plan in enumerate(plans):
        used, earlier, files = set(), [], []
        for j, k in enumerate(plan):
            text, a, v = gendict.dictionary(r, k, used, earlier)
            files.append(dict(mod='gd%dx%d' % (i, j), text=text, attrs=a, values=v))
            earlier += [(x['raw'], x['kind'], any(y['attr'] == x['name'] for y in v)) for x in a]
        d = os.path.join(work, 'r%d' % i)
        p = gendict.run_generator(g, d, files)
        events.append(gendict.event(files, 'good', p))
        if p.returncode: continue
        if not adopt(files, d, 'gd%d' % i): return
    chk.sample({'dictionary': files[-1]['text'][:12], 'declares': [{k: a[k] for k in ('raw', 'num', 'kind', 'len')} for a in files[-1]['attrs']]})
    # broken dictionaries
    for i in range(chk.n(60, 400)):
        text, a, v = gendict.dictionary(r, 'some', set(), [])
        text.insert(r.randrange(len(text) + 1), gendict.BROKEN[i % len(gendict.BROKEN)])
        good = []
        if i % 4 == 3: good = [dict(mod='aok', text=gendict.dictionary(r, 'some', set(), [])[0])]
        files = good + [dict(mod='bad', text=text)]
        p = gendict.run_generator(g, os.path.join(work, 'bad'), files)
        events.append(gendict.event(files, 'bad', p))
    trace = os.path.join(chk.dir, 'gen.trace')
    recs = [dict(sid='run%d' % i, ev=[e]) for i, e in enumerate(events)]
    open(trace, 'w').write(''.join(json.dumps(x) + '\n' for x in recs))
    netprops.validate_sessions(chk, 'TraceGen', recs, trace, recs, lambda why: True, 'generator', what='run')
    if chk.violations: return
    # the shipped dictionaries, judged by the committed snapshot of what they declare
    D = os.path.join(core.REPO, 'dicts')
    out = os.path.join(work, 'shipped')
    os.makedirs(out)
    p = subprocess.run([g, '-o', out] + sorted((os.path.join(D, x) for x in os.listdir(D)), reverse=True), capture_output=True, text=True, timeout=100)
    if p.returncode:
        chk.violation('the generator fails on the shipped dictionaries: ' + p.stderr[-500:], {'stderr': p.stderr}); return
    for x in sorted(os.listdir(D)):
        m = x.split('.')[1]
        modules.append((m, os.path.join(out, m + '.rs')))
    nship = len(gen.ATTRS)
    allattrs, allconsts = gen.ATTRS + attrs, gen.CONSTS + consts
    chk.extra.update(random_dictionaries=sum(len(p) for p in plans), broken_dictionaries=chk.n(60, 400), attributes=len(attrs), constants=len(consts), shipped_attributes=nship, shipped_constants=len(gen.CONSTS))
    for f in FEATURES if chk.thorough else FEATURES[:1]:
        binary, env = gendict.build_crate(modules, allattrs, allconsts, f)
        if not binary:
            chk.violation('generated modules do not compile: ' + env.split('error', 1)[-1][:400],
                          {'compiler': env[-8000:], 'dictionaries': [x['files'] for x in events if x['intent'] == 'good']}); return
        sessions = gen.dict_sessions(chk.rng, allattrs, len(allconsts), chk.pid, chk.n(1, 6))
        codec_traces(chk, sessions, f, name='gen', dict_env=env, binary=binary)
INFO['C21'] = ('TLA+ specification of the dictionary language (DictFormat) and of the accessors (Dictionary) checked with TLC; runs of the generator built from the tree on random, broken and the shipped dictionaries, and traces of the compiled generated modules, validated by TLC (TraceGen, TraceCodec)',
               'Dictionaries are sampled at random over every value type and option; all generated accessors and constants are compiled and their traces judged by TLC. Trusts rustc, the driver and TLC.')
