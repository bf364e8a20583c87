"""C21: random dictionaries, runs of the code generator built from /repo, and a crate made of what it generates."""
import json, os, re, shutil, subprocess, sys
import core, gen
from core import BUILD, REPO, SPEC, VERIF, ToolError, log, cargo_env
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import gen_driver

WORDS = ('Alpha Bravo Carbon Delta Echo Foxtrot Golf Hotel India Juliet Kilo Lima Mike Nectar Oscar Papa Quebec Romeo Sierra Tango Union Victor Whiskey Xenon Yankee Zulu '
         'NAS IPV6 Login Port Frame Tunnel Acct Name Id Limit Count Server Pool').split()
VWORDS = WORDS + 'X.25 V120 IPv4 G.3-Fax L2TP 802.11 PPP Start Stop'.split()
hx = lambda s: (s if isinstance(s, bytes) else s.encode()).hex()
norm = lambda s: re.sub(r'[^A-Za-z0-9]', '', s).upper()

KINDS = [('string', '', 'string'), ('string', 'encrypt=1', 'user_password'), ('string', 'has_tag', 'tagged_string'), ('string', 'has_tag,encrypt=2', 'tunnel_password'),
         ('string', 'encrypt=2,has_tag', 'tunnel_password'), ('octets', '', 'octets'), ('octets', 'concat', 'concat'), ('octets[N]', '', 'fixed'), ('ifid', '', 'fixed'),
         ('ipaddr', '', 'ipaddr'), ('ipv6addr', '', 'ipv6addr'), ('ipv4prefix', '', 'ipv4prefix'), ('ipv6prefix', '', 'ipv6prefix'), ('date', '', 'date'),
         ('integer', '', 'integer'), ('integer', 'has_tag', 'tagged_integer'), ('short', '', 'short'), ('vsa', '', 'vsa')]

def build_generator():
    with core.Lock():
        r = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(REPO, 'code-generator', 'Cargo.toml')], env=cargo_env(), capture_output=True, text=True)
        if r.returncode: raise ToolError('cargo build of the code generator failed:\n' + r.stderr[-4000:])
        out = os.path.join(BUILD, 'code-generator')
        shutil.copy2(os.path.join(BUILD, 'target', 'debug', 'code-generator'), out + '.new')
        os.replace(out + '.new', out)
    return out

def name(r, used, words, n):
    while True:
        s = '-'.join(r.sample(words, r.randrange(1, n + 1)))
        if norm(s) not in used and not s[0].isdigit():
            used.add(norm(s)); return s

def dictionary(r, k, used, earlier):
    """One dictionary: lines and what they declare.  earlier: attributes of earlier dictionaries of the same run, [name, has values]."""
    seps = r.choice([['\t'], [' '], ['\t\t'], ['    '], ['\t', ' ', ' \t', '\t ', '  \t\t']])
    sep = r.choice(seps)
    def joined(fields): return ''.join(x + (r.choice(seps) if i < len(fields) - 1 else '') for i, x in enumerate(fields))
    def note(): return r.choice(['', '', '', sep + '# ' + r.choice(['dup', 'has_tag', 'encrypt=1,concat', 'a b c']), sep])
    attrs, values, lines = [], [], []
    if r.random() < .8: lines += ['# -*- text -*-', '# Dictionary', '#', '']
    ks = KINDS if k == 'all' else [r.choice(KINDS) for _ in range(80)] if k == 'many' else [r.choice(KINDS) for _ in range(r.randrange(1, 10))]
    ks = list(ks); r.shuffle(ks)
    if k == 'values' and earlier: ks = ks[:r.randrange(0, 2)]
    consts = set()
    def value(a):
        while True:
            v = '-'.join(r.sample(VWORDS, r.randrange(1, 3)))
            c = norm(a + v)
            if c not in consts and c + 'TYPE' not in used and not any(c == norm(x['name']) + 'TYPE' for x in attrs): break
        consts.add(c)
        n = r.choice([0, 1, 2, 3, 10, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, r.getrandbits(8), r.getrandbits(32)])
        values.append(dict(attr=hx(a), name=hx(v), n='%08x' % n, const=c))
        return joined(['VALUE', a, v, str(n)]) + r.choice(['', '', '', '#c', '# dup', sep + '# dup', sep])
    body = []
    for t, o, kind in ks:
        a = name(r, used, WORDS, 3)
        n = r.choice([r.randrange(1, 256)] * 8 + [255, 1, 26, 0])
        ln = r.choice([1, 2, 4, 8, 16, 17, 127, 128, 252, 253]) if 'N' in t else 8 if t == 'ifid' else 0
        attrs.append(dict(name=hx(a), num=n, kind=kind, len=ln, raw=a))
        line = joined(['ATTRIBUTE', a, str(n), t.replace('N', str(ln))] + ([o] if o else [])) + note()
        vs = [value(a) for _ in range(r.choice([0, 1, 2, 4, 40] if k == 'many' else [0, 1, 2, 4]))] if kind in ('integer', 'tagged_integer') else []
        blocks = [line] + vs
        if r.random() < .2: blocks = vs + [line]
        if r.random() < .3: blocks.append('')
        if r.random() < .2: blocks.append('# ' + r.choice(['VALUE', 'ATTRIBUTE X 1 string', 'comment']))
        body.append(blocks)
    for a, kind, has in earlier:
        if kind in ('integer', 'tagged_integer') and (k == 'values' or r.random() < .5): body.append([value(a) for _ in range(r.randrange(1, 4))])
    r.shuffle(body)
    lines += [x for b in body for x in b]
    # the declarations in the order of the lines
    pos = {}
    for i, x in enumerate(lines):
        f = x.split()
        if len(f) > 3: pos[(f[0], f[1], f[2])] = i
    attrs.sort(key=lambda a: pos[('ATTRIBUTE', a['raw'], str(a['num']))])
    values.sort(key=lambda v: pos[('VALUE', bytes.fromhex(v['attr']).decode(), bytes.fromhex(v['name']).decode())])
    return lines, attrs, values

BROKEN = ['ATTRIBUTE', 'ATTRIBUTE Foo', 'ATTRIBUTE Foo 3', 'VALUE Foo Bar', 'VALUE', 'VALUE Foo', 'ATTRIBUTE Foo 3 strin', 'ATTRIBUTE Foo 3 String', 'ATTRIBUTE Foo 3 octet', 'ATTRIBUTE Foo 3 octets[]',
          'ATTRIBUTE Foo 3 octets[x]', 'ATTRIBUTE Foo 3 octets[4', 'ATTRIBUTE Foo 3 integer64', 'ATTRIBUTE Foo 3 byte', 'ATTRIBUTE Foo 3 ipv4addr', 'ATTRIBUTE Foo 3 octets[4]x', 'ATTRIBUTE Foo 3 xoctets[4]', 'ATTRIB Foo 3 string',
          'attribute Foo 3 string', 'VALUES Foo Bar 3', 'VENDOR Foo 9 1', 'BEGIN-VENDOR Foo a b', '$INCLUDE a b c', 'FLAGS a b c', 'VALUE-Foo Bar Baz 3', 'MACRO Foo 3 string', 'ATTRIBUTE\tFoo\t3', 'VALUE  Foo  Bar', 'x', 'END']

def run_generator(g, d, files, timeout=60):
    """Writes the dictionaries into a directory of their own and runs the generator on them."""
    shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, 'out'))
    paths = []
    for f in files:
        p = os.path.join(d, 'dictionary.' + f['mod'])
        open(p, 'w').write(''.join(x + '\n' for x in f['text'])); paths.append(p)
    if d[-1] in '13579': paths = paths[::-1]                      # read in the order of their names all the same
    return subprocess.run([g, '-o', os.path.join(d, 'out')] + paths, capture_output=True, text=True, timeout=timeout)

def event(files, intent, p):
    return dict(intent=intent, exit='ok' if p.returncode == 0 else 'fail',
                files=[dict(mod=f['mod'], lines=[hx(x) for x in f['text']], attrs=[{k: a[k] for k in ('name', 'num', 'kind', 'len')} for a in f.get('attrs', [])],
                            values=[{k: v[k] for k in ('attr', 'name', 'n')} for v in f.get('values', [])]) for f in files])

CARGO = '''[package]
name = "gencheck"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
radius = { path = "%s/radius", default-features = false }
serde_json = { version = "1", default-features = false, features = ["std"] }
tokio = { version = "1", features = ["full"] }
async-trait = "0.1"
chrono = { version = "0.4", default-features = false }
md5 = "0.7"

[features]
md5 = ["radius/md5"]
openssl = ["radius/openssl"]

[profile.dev]
opt-level = 0
debug = false
overflow-checks = true
debug-assertions = true
incremental = false

[profile.dev.package."*"]
opt-level = 0
debug = false
'''
MAIN = '''#![allow(dead_code, unused_imports)]
pub mod core {
    pub use radius::core::*;
%s}
pub mod dictroot {
    pub use crate::core::*;
}
mod dict_driver;
#[path = "%s/harness/src/exec.rs"]
mod exec;
#[path = "%s/harness/src/util.rs"]
mod util;
use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
fn main() {
    util::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in inp.lines() {
        let s: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut ses = exec::Session::new();
        for op in s["ops"].as_array().unwrap() {
            ses.run(op);
        }
        writeln!(out, "{}", json!({"sid": s["sid"], "ev": ses.ev})).unwrap();
        out.flush().unwrap();
    }
}
'''

def idents(path):
    """Normalised name -> identifiers of the constants of a module."""
    out = {}
    for c in re.findall(r'\bpub const (\w+)\s*:', open(path).read()): out.setdefault(c.replace('_', ''), []).append(c)
    return out

def build_crate(modules, attrs, consts, feature, name='gencheck'):
    """The crate of all generated modules and their driver; returns the binary or the compiler's complaint."""
    d = os.path.join(BUILD, name)
    with core.Lock():
        os.makedirs(os.path.join(d, 'src', 'core'), exist_ok=True)
        for m in os.listdir(os.path.join(d, 'src', 'core')): os.remove(os.path.join(d, 'src', 'core', m))
        for m, p in modules: shutil.copy(p, os.path.join(d, 'src', 'core', m + '.rs'))
        open(os.path.join(d, 'Cargo.toml'), 'w').write(CARGO % REPO)
        lock = open(os.path.join(VERIF, 'harness', 'Cargo.lock')).read().replace('name = "harness"', 'name = "gencheck"')
        open(os.path.join(d, 'Cargo.lock'), 'w').write(lock)
        open(os.path.join(d, 'src', 'main.rs'), 'w').write(MAIN % (''.join('    pub mod %s;\n' % m for m, _ in modules), VERIF, VERIF))
        json.dump(attrs, open(os.path.join(d, 'attributes.json'), 'w')); json.dump(consts, open(os.path.join(d, 'constants.json'), 'w'))
        gen_driver.main(os.path.join(d, 'attributes.json'), os.path.join(d, 'constants.json'), os.path.join(d, 'src', 'dict_driver.rs'))
        r = subprocess.run(['cargo', 'build', '--offline', '--features', feature], cwd=d, env=cargo_env(), capture_output=True, text=True)
        if r.returncode: return None, r.stderr
        out = os.path.join(BUILD, name + '-' + feature)
        shutil.copy2(os.path.join(BUILD, 'target', 'debug', 'gencheck'), out + '.new')
        os.replace(out + '.new', out)
    return out, {'DICT_ATTRS': os.path.join(d, 'attributes.json'), 'DICT_CONSTS': os.path.join(d, 'constants.json')}
