#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

1. extract /repo/monoasm/src mechanically (tools/extract) and splice the contracts in;
2. generate one wrapper per assembly form, expand the real macro on it, splice contracts;
3. Verus discharges every obligation (runtime functions + this property's wrappers);
4. the native search replays the same contracts on the real, compiled code: it supplies
   the concrete failing input when an obligation fails, and stands in (bounded, labelled
   so) for a function that the extraction or the verifier cannot take.
Exit 0: held.  Exit 1: VIOLATION line.
"""
import sys, os, re, json, time, shutil, subprocess, threading, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MONOASM_REPO', '/repo')
C = V + '/contracts'
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2: TIER = sys.argv[2]
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
W = '%s/build/%s' % (V, PROP)
REPLAY = '%s/build/replay/%s.json' % (V, PROP)
SPEC = ('prelude.rs', 'encspec.rs', 'statespec.rs', 'lemmas.rs')
WRAPPED = ('C02', 'C03', 'C04', 'C05', 'C13')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', RUSTFLAGS='', CARGO_TERM_COLOR='never')
ENV.pop('CARGO_TARGET_DIR', None)
OWN = json.load(open(C + '/owners.json'))
notes = []            # what this run could not decide and why
viol = []             # (kind, text, detail)
LOCK = threading.Lock()

def note(s):
    with LOCK:
        notes.append(s)
        print('note:', s, flush=True)

def run(cmd, cwd=None, env=None, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return -999, d(e.stdout), d(e.stderr)

def left(want, until):
    """seconds to grant: want, but not beyond `until` seconds after the start"""
    if TIER == 'thorough': return 4 * want
    return max(20, min(want, until - (time.time() - T0)))

def owners(key):
    return [p for p, rs in OWN.items() if p[0] == 'C' and any(re.fullmatch(r, key) for r in rs)]

# ------------------------------------------------------------------ builds
def build_extract():
    e = dict(ENV, CARGO_TARGET_DIR=W + '/xt')
    shutil.copytree(V + '/tools/extract', W + '/extract', ignore=shutil.ignore_patterns('target'))
    rc, o, er = run(['cargo', 'build', '-q'], cwd=W + '/extract', env=e)
    if rc: raise SystemExit('cannot build the extractor:\n' + er[-3000:])
    return W + '/xt/debug/extract'

VTEXT = {}
def wrapper_of_line(path):
    m = {}
    cur = None
    for n, l in enumerate(open(path), 1):
        q = re.match(r'pub fn (\w+)', l)
        if q: cur = q.group(1)
        m[n] = (cur, l)
    return m

class Native:
    """The search crate built against /repo, and the expanded wrappers."""
    def __init__(s):
        s.skip, s.refused, s.err = [], {}, None
        d = W + '/search'
        shutil.copytree(V + '/tools/search', d, ignore=shutil.ignore_patterns('target', 'gen'))
        t = open(d + '/Cargo.toml').read().replace('"/repo/', '"%s/' % REPO)
        open(d + '/Cargo.toml', 'w').write(t)
        if os.path.exists(REPO + '/Cargo.lock'): shutil.copy(REPO + '/Cargo.lock', d)
        e = dict(ENV, CARGO_TARGET_DIR=W + '/target')
        for attempt in range(6):
            rc, o, er = run([sys.executable, V + '/tools/forms.py', d + '/src/gen'] + s.skip, env=dict(ENV, FORMS_PROP=PROP, MONOASM_REPO=REPO))
            if rc: raise SystemExit('forms.py failed:\n' + er[-2000:])
            rc, o, er = run(['cargo', 'build', '--message-format=json'], cwd=d, env=e)
            if rc == 0: break
            where = {n: wrapper_of_line(d + '/src/gen/%s.rs' % n) for n in ('wrappers', 'variants')}
            new = {}
            other = []
            for l in o.split('\n'):
                if not l.startswith('{'): continue
                x = json.loads(l)
                if x.get('reason') != 'compiler-message' or x['message']['level'] != 'error': continue
                hit = False
                for sp in x['message']['spans']:
                    while True:
                        n = os.path.basename(sp['file_name'])[:-3]
                        if 'gen/' in sp['file_name'] and n in where:
                            f = where[n].get(sp['line_start'], (None,))[0]
                            if f and n == 'variants': VTEXT[f] = where[n][sp['line_start']][1].split('monoasm!(jit, ')[-1].rsplit('); }', 1)[0]
                            if f: new.setdefault(f, x['message']['message']); hit = True
                        if not sp.get('expansion'): break
                        sp = sp['expansion']['span']
                if not hit: other.append(x['message'].get('rendered') or x['message']['message'])
            if not new:
                s.err = '\n'.join(other)[-3000:] or er[-3000:]
                break
            s.refused.update(new)
            s.skip += list(new)
        s.forms = json.load(open(d + '/src/gen/forms.json'))
        s.bin = W + '/target/debug/search'
        s.dir = d

    def expand(s):
        e = dict(ENV, CARGO_TARGET_DIR=W + '/target')
        rc, o, er = run(['cargo', 'rustc', '--lib', '--', '-Zunpretty=expanded', '-Awarnings'], cwd=s.dir, env=e)
        if rc: return None
        open(W + '/expanded.rs', 'w').write(o)
        return W + '/expanded.rs'

# ------------------------------------------------------------------ Verus
SEMANTIC = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'possible arithmetic', 'possible division', 'possible bit shift', 'decreases not satisfied', 'could not prove termination',
            'unable to prove', 'cannot show', 'failed precondition', 'failed', 'not satisfied')
CANARY = '''
// vacuity guards: each must be refused by the verifier
proof fn canary_axioms() ensures false { }
proof fn canary_inv(v: JitV, l: DestLabel) requires v.inv(), v.room(100), v.haslab(l), strict() ensures false { }
proof fn canary_partial(v: JitV) requires v.inv(), !strict() ensures false { }
fn canary_emit(j: &mut JitMemory, b: u8) requires old(j).v().inv(), strict(), old(j).v().room(1) ensures false { j.emitb(b); }
fn canary_final(j: &mut JitMemory) requires old(j).v().inv() ensures false { j.finalize(); }
'''

HCANARY = '''
proof fn canary_good(v: JitV, l: DestLabel) requires history::good(v), history::legal(v, history::Op::Finalize), history::legal(v, history::Op::Bind(l)), strict() ensures false { }
'''
DCANARY = '''
proof fn canary_decode(mm: ModRM, rm: Rm) requires enc_legal(mm, rm), rm_ok(rm), reg_ok(mm_reg(mm)), decode::mm_ok(mm), rm.base.0 == 13, mode_scale(rm.mode) is S1, strict() ensures false { }
'''

class Verus:
    """One Verus run on extracted text, with attribution of diagnostics to functions."""
    def __init__(s, name, spec, parts, tail, modules, root):
        s.name, s.spec, s.parts, s.tail, s.modules, s.root = name, spec, parts, tail, modules, root

    def module_of(s, k):
        """module that holds function k in the text of the last run ('' = crate root)"""
        w = re.compile(r'\bfn %s\b' % re.escape(k.lstrip('~').split('::')[-1]))
        if k[0] == '~':
            for f in s.spec:
                if w.search(open('%s/%s' % (C, f)).read()): return f[:-3] if f in THEORY else ''
            return None
        cur = ''
        for l in s.text.split('\n'):
            q = re.match(r'pub mod (c\d\d_\w+) \{', l)
            if q: cur = q.group(1)
            elif w.search(l): return cur
        return None

    def once(s, extra=(), tail=None, only=None, func=None, tag='_again'):
        t = ''.join(open('%s/%s' % (C, f)).read() for f in s.spec)
        maps = []
        for path, m in s.parts:
            maps.append((t.count('\n'), m))
            t += open(path).read()
        t += (s.tail if tail is None else tail) + '\n} fn main(){}\n'
        if tail is not None: t = t.replace('/*second: ', '').replace(' :second*/', '')
        if tail is not None: t = re.sub(r'(broadcast use super::group_(asm|seq));', r'\g<1>2;', t)
        f = '%s/%s%s.rs' % (W, s.name, '' if tail is None else tag)
        open(f, 'w').write(t)
        s.text = t
        L = t.split('\n')
        def fn(l):
            for off, m in reversed(maps):
                for k, a, b in m['lines']:
                    if a <= l - off <= b: return k
            for i in range(min(l, len(L)) - 1, -1, -1):
                q = re.search(r'\bfn (\w+)', L[i])
                if q: return '~' + q.group(1)
            return '~?'
        a = []
        for m in s.modules:
            if only is None or m in only: a += ['--verify-module', m]
        if s.root and (only is None or '' in only): a.append('--verify-root')
        if func: a += ['--verify-function', func]
        cmd = ['verus', f, '--num-threads', '2' if func else '8', '--multiple-errors', '1', '--error-format=json', '--output-json', '--time-expanded'] + a + list(extra)
        s.cmd = ' '.join(cmd[:12]) + ' ...' if len(cmd) > 14 else ' '.join(cmd)
        rc, o, er = run(cmd, cwd=W, timeout=left(360, 600))
        r = {'errors': [], 'vir': [], 'verified': 0, 'nerr': 0, 'solver_ms': 0, 'total_ms': 0, 'ok': False, 'funcs': 0}
        if rc == -999:
            r['timeout'] = True
            return r
        for line in er.split('\n'):
            if not line.startswith('{'): continue
            try: d = json.loads(line)
            except ValueError: continue
            if d.get('level') != 'error' or d['message'].startswith('aborting'): continue
            prim = [x for x in d['spans'] if x['is_primary']] or d['spans']
            msg = d['message']
            k = fn(prim[0]['line_start']) if prim else '~?'
            allk = [fn(x['line_start']) for x in d['spans']]
            # a failed postcondition is reported at the contract, a precondition at the call
            txt = [msg] + ['%s: %s' % (x.get('label') or '', L[x['line_start'] - 1].strip()[:300]) for x in d['spans']]
            sem = any(w in msg for w in SEMANTIC)
            rl = 'esource limit' in msg or 'rlimit' in msg
            r['errors' if sem or rl else 'vir'].append({'fn': k, 'all': allk, 'msg': ' | '.join(txt), 'rlimit': rl, 'rendered': (d.get('rendered') or '')[:3000]})
        try:
            j = json.loads(o)
            vr = j.get('verification-results', {})
            r['verified'], r['nerr'] = vr.get('verified', 0), vr.get('errors', 0)
            if vr.get('encountered-vir-error'): r['virflag'] = True
            tm = j.get('times-ms', {})
            r['total_ms'] = tm.get('total', 0)
            smt = tm.get('smt', {})
            r['solver_ms'] = sum(x.get('time', 0) for x in smt.get('smt-run-module-times', [])) or smt.get('total', 0)
            r['ok'] = 'verified' in vr
        except ValueError:
            r['raw'] = (o + er)[-1500:]
        return r

    def second(s, fns):
        """the failing functions again: other seed, larger limit, regrouping lemmas"""
        X = ['--rlimit', '30', '--smt-option', 'smt.random_seed=7']
        mods = {k: s.module_of(k) for k in fns}
        known = None not in mods.values() and set(mods.values()) <= set(s.modules) | {''}
        if not known or len(fns) > 12: return s.once(X, '', set(mods.values()) if known else None)
        out = {'errors': [], 'vir': [], 'ok': True, 'solver_ms': 0, 'total_ms': 0}
        cmd = s.cmd
        def one(ik):
            i, k = ik
            n = k.lstrip('~').split(' for ')[-1].split('<')[0] if '::' not in k else re.sub(r'<.*?>', '', k.split(' for ')[-1])
            r = s.once(X, '', {mods[k]}, '*' + n, '_again%d' % i)
            if not r['ok'] and not r.get('timeout'): r = s.once(X, '', {mods[k]}, None, '_again%d' % i)
            return k, r
        with cf.ThreadPoolExecutor(6) as ex:
            for k, r in ex.map(one, list(enumerate(sorted(fns)))):
                if r.get('timeout'): out['errors'].append({'fn': k, 'rlimit': True})
                elif not r['ok'] or r['vir'] or not r['verified'] + r['nerr']: out['errors'].append({'fn': k, 'rlimit': False})
                else: out['errors'] += [x for x in r['errors'] if x['fn'] == k]
                out['solver_ms'] += r['solver_ms']
                out['total_ms'] += r['total_ms']
        s.cmd = cmd
        return out

def extract(xt, mode, args, stub=(), nospec=()):
    e = dict(ENV)
    if stub: e['STUB'] = '|'.join(stub)
    if nospec: e['NOSPEC'] = '|'.join(nospec)
    rc, o, er = run([xt, mode] + args, env=e)
    return rc, er

def verify(xt, name, spec, mk, tail, modules, canaries, select=None, root=False):
    """mk(stub, nospec) -> parts.  Returns a summary."""
    stub, nospec = [], []
    res = {'name': name, 'undecided': {}, 'failed': {}, 'verified': 0, 'solver_ms': 0, 'total_ms': 0, 'cmd': '', 'funcs': [], 'rules': {}, 'fatal': None, 'dropped': [], 'inlined': [], 'dead': False}
    for attempt in range(8):
        parts, err = mk(stub, nospec)
        if parts is None:
            res['fatal'] = 'extraction failed: ' + err[-500:]
            return res
        v = Verus(name, spec, parts, tail, modules, root)
        r = v.once()
        res['cmd'] = v.cmd
        if r.get('timeout'):
            res['fatal'] = 'verifier timed out'
            return res
        if not r['vir'] and r['ok'] and not r.get('virflag'): break
        progress = False
        if any(f in CLIENTS for f in spec) and any(k.startswith('~h_') for x in r['vir'] for k in [x['fn']] + x['all']):
            # a function of the interface has another shape: its link to the theorems is gone
            res['undecided']['~clients'] = 'the calls of clients.rs do not fit the current interface'
            spec = tuple(f for f in spec if f not in CLIENTS)
            modules = [m for m in modules if m + '.rs' not in CLIENTS]
            progress = True
        for x in r['vir']:
            ks = [k for k in [x['fn']] + x['all'] if not k.startswith('~')]
            for k in ks[:1]:
                if k not in stub: stub.append(k); progress = True
                elif k not in nospec: nospec.append(k); progress = True
        res['vir'] = [x['msg'][:300] for x in r['vir']][:8] or [r.get('raw', '')[-300:]]
        if not progress:
            res['fatal'] = 'outside the verifier\'s reach: ' + '; '.join(res['vir'])[:800]
            return res
    else:
        res['fatal'] = 'outside the verifier\'s reach: ' + '; '.join(res.get('vir', []))[:800]
        return res
    maps = [m for _, m in parts]
    errs = [x for x in r['errors'] if not x['fn'].startswith('~canary')]
    can = {x['fn'][1:] if x['fn'].startswith('~') else x['fn'] for x in r['errors']} & set(canaries)
    errs = [x for x in errs if x['fn'] not in canaries]
    if set(canaries) - can:
        res['fatal'] = 'vacuity guard: expected refusal missing for %s' % sorted(set(canaries) - can)
        return res
    if errs and not any(x[0] == 'concrete' for x in viol):
        # once more with another seed and a larger limit: keep what fails both times
        r2 = v.second({x['fn'] for x in errs})
        if r2['ok'] and not r2['vir']:
            again = {x['fn'] for x in r2['errors']}
            r['verified'] += len({x['fn'] for x in errs} - again)
            errs = [x for x in errs if x['fn'] in again]
            rl2 = {x['fn'] for x in r2['errors'] if not x['rlimit']}
            for x in errs:
                if x['fn'] not in rl2: x['rlimit'] = True
            r['solver_ms'] += r2['solver_ms']
            r['total_ms'] += r2['total_ms']
    weak = {}
    lostfn = set()
    for m in maps:
        for l in m['lost']:
            q = re.match(r'contract for missing item: (.*)', l)
            if q: lostfn.add(q.group(1).split('::')[-1].split('<')[0])
            else: weak[l.split(': ')[0]] = l
    bare = {k.split('::')[-1] for m in maps for k in m['uncontracted']} | {k.split('::')[-1] for k in nospec}
    for m in maps:
        for k, cs in m['calls'].items():
            hit = (bare & {c.split('::')[-1] for c in cs}) - {k.split('::')[-1]}
            if hit: weak.setdefault(k, '%s calls %s, which has no contract' % (k, sorted(hit)))
    for k in stub: res['undecided'][k] = 'outside the verifier\'s reach'
    for x in errs:
        k = x['fn']
        if k.startswith('~'): res['undecided'][k] = 'lemma: ' + x['msg'][:200]
        elif x['rlimit']: res['undecided'].setdefault(k, 'solver resource limit')
        elif k in weak: res['undecided'][k] = weak[k]
        else: res['failed'].setdefault(k, []).append(x)
    for k in res['failed']: res['undecided'].pop(k, None)
    for m in maps:
        for l in m['lost']:
            if l.startswith('contract for missing'): res['undecided'].setdefault(l.split(': ', 1)[1], 'function not found; its callers are checked against its inlined or assumed body')
    allfns = [k for m in maps if not m.get('assumed') for k, _, _ in m['lines']]
    res['funcs'] = [k for k in allfns if k not in stub and k not in canaries and (select is None or select(k))]
    res['rules'] = {}
    for m in maps:
        for k, n in m['rules'].items(): res['rules'][k] = res['rules'].get(k, 0) + n
        res['dropped'] += m['dropped']
        res['inlined'] += m['inlined']
    res['verified'] = r['verified']
    res['obligations'] = r['verified'] + len({x['fn'] for x in errs} | set(stub))
    res['canaries'] = len(can)
    res['solver_ms'], res['total_ms'] = r['solver_ms'], r['total_ms']
    return res

# ------------------------------------------------------------------ native search
def search_cmds(deep):
    s = str(SEED)
    d = '1' if deep else '0'
    n = '1500' if deep else '150'
    H = lambda: ['hist', PROP, s, n]
    F = lambda: ['forms', PROP, s, d]
    B = lambda: ['big', PROP, s, d]
    return {
        'C01': [['ops', s, d]], 'C02': [F(), ['variants']], 'C03': [F(), ['variants']], 'C04': [F(), ['variants']], 'C05': [F(), ['variants']],
        'C06': [H(), B()], 'C07': [H(), B()], 'C08': [H(), B()], 'C09': [['region', s, d], H(), B()], 'C10': [H(), B()], 'C11': [H(), B()],
        'C12': [H(), ['ptrs', s], B()], 'C13': [F(), ['variants'], ['seqs']], 'C14': [['layout', s], H()],
    }[PROP]

def native_run(nat, deep, stats):
    for c in search_cmds(deep):
        rc, o, er = run([nat.bin] + c, cwd=W, timeout=left(300, 820))
        st = {'cmd': 'search ' + ' '.join(c), 'rc': rc}
        for l in o.split('\n'):
            if l.startswith('FAIL'): st['fail'] = l[5:]
            if l.startswith('STAT'): st['stat'] = l[5:1500]
            if l.startswith('OTHER'): st.setdefault('other', l[:400])
            if l.startswith('ERROR'): st['error'] = l[:400]
        stats.append(st)
        if 'fail' in st:
            viol.append(('concrete', st['fail'], {'command': [nat.bin] + c, 'build': 'tools/search built against /repo by tools/check.py'}))
            return True
        if rc == -999: note('native search timed out: ' + st['cmd'])
        elif rc != 0 or 'DONE' not in o: note('native search ended abnormally (%s): %s' % (rc, (st.get('error') or er[-300:])))
    return False

def rejects(nat, stats):
    """C13: statements that form no instruction must be refused at expansion."""
    L = [l.rstrip('\n') for l in open(V + '/tools/reject/statements.txt') if l.strip() and l[0] != '#']
    L += sorted(set(MATRIX()) - set(L))
    d = W + '/reject'
    os.makedirs(d + '/src')
    o = '#![allow(warnings)]\nuse monoasm::*;\nuse monoasm_macro::monoasm;\n'
    at = {}
    for i, s in enumerate(L):
        at[o.count('\n') + 1] = s
        o += 'pub fn r%d(jit: &mut JitMemory, l: DestLabel) { monoasm!(jit, %s); }\n' % (i, s)
    open(d + '/src/lib.rs', 'w').write(o)
    t = open(nat.dir + '/Cargo.toml').read().replace('name = "search"\nversion', 'name = "reject"\nversion')
    t = re.sub(r'\[\[bin\]\]\n(.+\n)+', '', t).replace('name = "forms"\n', '')
    open(d + '/Cargo.toml', 'w').write(t)
    if os.path.exists(REPO + '/Cargo.lock'): shutil.copy(REPO + '/Cargo.lock', d)
    rc, o, er = run(['cargo', 'check', '--message-format=json'], cwd=d, env=dict(ENV, CARGO_TARGET_DIR=W + '/target'))
    bad = set()
    for l in o.split('\n'):
        if not l.startswith('{'): continue
        x = json.loads(l)
        if x.get('reason') != 'compiler-message' or x['message']['level'] != 'error': continue
        for sp in x['message']['spans']:
            while sp.get('expansion'): sp = sp['expansion']['span']
            bad.add(sp['line_start'])
    if not bad and rc != 0:
        note('rejection check did not run: ' + er[-300:])
        return
    acc = [s for n, s in at.items() if n not in bad]
    stats.append({'cmd': 'cargo check of %d statements that form no instruction' % len(L), 'stat': 'evaluations=%d' % len(L)})
    if acc:
        viol.append(('concrete', 'accepted although it forms no instruction: ' + ' '.join(acc[:5]), {'statements': acc}))

# ------------------------------------------------------------------ assumptions
def trusted():
    """Mechanical scan for everything the proof assumes."""
    out = []
    for f in RSPEC + ('asmspec.rs',):
        t = open('%s/%s' % (C, f)).read().split('\n')
        for i, l in enumerate(t):
            if 'external_body' in l:
                n = next((re.search(r'(fn|struct) (\w+)', x) for x in t[i + 1:i + 6] if re.search(r'\b(fn|struct) \w+', x)), None)
                if n: out.append('external_body %s (%s)' % (n.group(2), f))
            q = re.search(r'assume_specification.*\[\s*([^\]]+)\]', l)
            if q: out.append('assume_specification %s (%s)' % (q.group(1).strip(), f))
            if re.search(r'\b(assume|admit)\(', l): out.append('assume/admit: %s (%s)' % (l.strip()[:80], f))
            q = re.search(r'uninterp spec fn (\w+)', l)
            if q: out.append('uninterpreted %s (%s)' % (q.group(1), f))
    return out

# theorems over whole histories (contracts/history.rs), and the clients that tie each
# step of a history to the contract of the real function
THEOREMS = {
    'C01': ['theorem_decode', 'theorem_decode_rd'],
    'C06': ['theorem_finalize', 'theorem_refs', 'theorem_run'], 'C07': ['theorem_finalize', 'theorem_run'],
    'C08': ['theorem_bytes', 'theorem_run'], 'C10': ['theorem_labels', 'theorem_run'],
    'C11': ['theorem_finalize', 'theorem_labels', 'theorem_run'], 'C12': ['lemma_good_patch', 'theorem_bytes', 'theorem_run'],
}
THEORY = ('decode.rs', 'client01.rs') if PROP == 'C01' else ('history.rs', 'clients.rs') if PROP in THEOREMS else ()
CLIENTS = ('clients.rs', 'client01.rs')
RSPEC = SPEC + THEORY

def known():
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            q = re.match(r'known: property=(\w+) match=(.+?) :: (.*)', l.strip())
            if q and q.group(1) == PROP: out.append((q.group(2), q.group(3)))
    return out

def main():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    os.makedirs(os.path.dirname(REPLAY), exist_ok=True)
    if os.path.exists(REPLAY): os.remove(REPLAY)
    ex = cf.ThreadPoolExecutor(6)
    fx = ex.submit(build_extract)
    fn = ex.submit(Native)

    def runtime():
        xt = fx.result()
        def mk(stub, nospec):
            rc, er = extract(xt, 'runtime', [REPO, C + '/runtime.ct', W + '/items.rs', W + '/map.json'], stub, nospec)
            if rc: return None, er
            return [(W + '/items.rs', json.load(open(W + '/map.json')))], ''
        return verify(xt, 'runtime', RSPEC, mk, CANARY + (DCANARY if PROP == 'C01' else HCANARY if THEORY else ''), [f[:-3] for f in THEORY],
                      ['canary_axioms', 'canary_inv', 'canary_partial', 'canary_emit', 'canary_final'] + (['canary_decode'] if PROP == 'C01' else ['canary_good'] if THEORY else []), root=True)

    def wrappers():
        if PROP not in WRAPPED: return None
        nat = fn.result()
        xt = fx.result()
        if nat.err and not os.path.exists(nat.dir + '/src/gen/forms.ct'): return None
        exp = nat.expand()
        if not exp: return {'fatal': 'macro expansion failed', 'failed': {}, 'undecided': {}, 'funcs': [], 'verified': 0, 'solver_ms': 0, 'total_ms': 0, 'obligations': 0, 'rules': {}, 'cmd': '', 'dropped': [], 'inlined': []}
        mods = [m for m, ps in nat.forms['modules'].items() if PROP in ps] + ['canary']
        def mk(stub, nospec):
            rc, er = extract(xt, 'runtime', [REPO, C + '/runtime.ct', W + '/witems.rs', W + '/wimap.json'], stub, nospec)
            if rc: return None, er
            rc, er = extract(xt, 'wrappers', [exp, nat.dir + '/src/gen/forms.ct', W + '/wr.rs', W + '/wmap.json'], stub, nospec)
            if rc: return None, er
            im = json.load(open(W + '/wimap.json'))
            im = dict(im, lost=[], uncontracted=[], calls={}, rules={}, dropped=[], inlined=[], assumed=True)
            return [(W + '/witems.rs', im), (W + '/wr.rs', json.load(open(W + '/wmap.json')))], ''
        w = verify(xt, 'wrappers', SPEC + ('asmspec.rs',), mk, '', mods, ['w_canary'],
                   lambda k: PROP in nat.forms['forms'].get(k, {'props': ['C13']})['props'])
        return w

    stats = []
    fr = ex.submit(runtime)
    fw = ex.submit(wrappers)
    nat = fn.result()
    if nat.err: note('native search not built: ' + nat.err[-600:])
    for f, msg in sorted(nat.refused.items()):
        ps = FORM_PROPS(f)
        if PROP in ps:
            viol.append(('concrete', 'statement no longer accepted: `%s` (%s)' % (FORM_TEXT(f), msg[:200]), {'form': f}))
    if not nat.err:
        native_run(nat, TIER == 'thorough', stats)
        if PROP == 'C13' and not viol: rejects(nat, stats)
    rr, wr = fr.result(), fw.result()
    parts = [x for x in (rr, wr) if x]
    for x in parts:
        if x['fatal']: note('%s: %s' % (x['name'] if 'name' in x else 'wrappers', x['fatal']))
        for k, why in x['undecided'].items(): note('undecided: %s (%s) -> bounded native search stands in' % (k, why))
    mine = {}
    for k, es in rr['failed'].items():
        if PROP in owners(k): mine[k] = es
        else: note('dependency contract not discharged: %s (owned by %s)' % (k, ', '.join(owners(k))))
    if wr:
        for k, es in wr['failed'].items():
            if k in rr['funcs'] or PROP not in nat.forms['forms'].get(k, {'props': ['C13']})['props']: continue
            mine[k] = es
    undecided_any = any(x['fatal'] or x['undecided'] or x['failed'] for x in parts)
    if (mine or undecided_any) and not viol and not nat.err and TIER != 'thorough':
        native_run(nat, True, stats)
    if mine and not any(v[0] == 'concrete' for v in viol):
        for k, es in list(mine.items())[:5]:
            viol.append(('obligation', '%s: %s' % (k, es[0]['msg'][:600]), {'verifier_output': [e['rendered'] or e['msg'] for e in es][:4]}))
    # ---- verdict
    kn = known()
    out = []
    for kind, text, det in viol:
        q = next((w for m, w in kn if m in text), None)
        if q: print('KNOWN-FINDING: property=%s %s' % (PROP, q))
        else: out.append((kind, text, det))
    ob = sum(x.get('obligations', 0) for x in parts)
    di = sum(x.get('verified', 0) for x in parts)
    und = {k: v for x in parts for k, v in x['undecided'].items()}
    fatal = [x['fatal'] for x in parts if x['fatal']]
    ev = {
        'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': ob, 'discharged': di,
            'checker_cmd': '; '.join(x['cmd'] for x in parts),
            'trusted_base': ['Verus 0.2026.09.13 + Z3 (back end)', 'tools/extract rewrite rules (see DESIGN.md)'] + trusted(),
            'functions_under_contract': sum(len(x['funcs']) for x in parts),
            'runtime_functions': rr['funcs'], 'wrapper_functions': len(wr['funcs']) if wr else 0,
            'theorems': THEOREMS.get(PROP, []),
            'own_contracts': [k for k in rr['funcs'] if PROP in owners(k)],
            'solver_ms': sum(x['solver_ms'] for x in parts), 'verifier_wall_ms': sum(x['total_ms'] for x in parts),
            'vacuity_guards_refused_as_expected': sum(x.get('canaries', 0) for x in parts),
            'extraction_rules_applied': {k: n for x in parts for k, n in x['rules'].items()},
            'extraction_dropped': sorted({d for x in parts for d in x['dropped']}), 'helpers_inlined': sorted({d for x in parts for d in x['inlined']}),
            'undecided_functions': und, 'fatal': fatal,
            'failed_obligations': {k: es[0]['msg'][:400] for x in parts for k, es in x['failed'].items()},
            'bounded_native_search': stats,
        },
        'assumptions': ['host is little-endian x86-64', 'pointers are addresses below 2^47; raw accesses specified by raw_byte/raw_byte_mut/raw_slice/raw_store4',
                        'std Vec/iterator/integer specifications of vstd', 'f64::to_bits uninterpreted', 'panics modelled as divergence; strict() distinguishes total from partial correctness']
                       + (['bounded stand-in for: ' + ', '.join(list(und) + fatal)] if und or fatal else []),
        'wall_s': round(time.time() - T0, 1), 'violations': len(out), 'notes': notes,
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, PROP), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions, solver %d ms, wall %.0f s, native: %s' % (
        PROP, ob, di, ev['coverage']['functions_under_contract'], ev['coverage']['solver_ms'], ev['wall_s'], '; '.join('%s [%s]' % (s['cmd'], s.get('stat', '')[:60]) for s in stats)))
    rc = 0
    if out:
        conc = [v for v in out if v[0] == 'concrete']
        json.dump({'property': PROP, 'violations': [{'kind': k, 'what': t, 'detail': d} for k, t, d in out],
                   'failed_obligations': {k: [e['rendered'] or e['msg'] for e in es][:3] for k, es in mine.items()}}, open(REPLAY, 'w'), indent=1)
        for k, t, d in out[:5]: print(('failing input: ' if k == 'concrete' else 'failed obligation: ') + t)
        print('VIOLATION property=%s replay=%s%s' % (PROP, REPLAY, '' if conc else ' no-failing-input-found'))
        rc = 1
    elif not parts or (fatal and nat.err):
        print('no answer: ' + '; '.join(notes)[:1500])
        rc = 2
    # keep only small files
    for d in ('xt', 'target', 'search', 'extract', 'reject'): shutil.rmtree(W + '/' + d, ignore_errors=True) if not os.environ.get('KEEP') else None
    sys.stdout.flush()
    os._exit(rc)

_forms = None
def _load_forms():
    global _forms
    if _forms is None:
        sys.path.insert(0, V + '/tools')
        import forms
        forms.build(); forms.finish()
        _forms = {f.name: f for f in forms.FORMS}
    return _forms
def MATRIX(): _load_forms(); import forms; return forms.matrix()
def form_of(n):
    F = _load_forms()
    return F.get(n) or (F.get('w' + n[1:].rsplit('_', 1)[0]) if n.startswith('v') else None)
def FORM_PROPS(n): f = form_of(n); return f.props + (['C13'] if n[0] == 'v' else []) if f else ['C13']
def FORM_TEXT(n):
    f = form_of(n)
    return VTEXT.get(n) or (f.text if f else n)

main()
