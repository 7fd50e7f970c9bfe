#!/usr/bin/env python3
"""Extract /repo's functions to Verus, attach the contracts of specs/, and verify the cone of a property.

prove.py PROP|all|fn NAME...   (as a program: prints the outcome; --keep FILE writes the generated Verus text)
prove(prop, tier) is what check.py calls."""
import json, os, re, subprocess, sys, tempfile, time, difflib, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import extract, translate
from extract import Fn, Unsupported, INTS

VERIFICATION = ('postcondition not satisfied', 'precondition not met', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division by zero', 'decreases not satisfied',
                'assert_bitvector', 'bitvector', 'loop invariant', 'unreachable', 'shift', 'possible bit shift', 'could not prove termination', 'termination', 'requires not satisfied', 'condition not satisfied', 'possible')
FIRST, SECOND, RETRY = 260, 120, 200   # seconds: a whole run, a run with small solver limits, no further seeds after
LIMIT = ('resource limit', 'rlimit')

def load_specs():
    specs, lem = {}, {}
    def F(path, name, **kw):
        kw.setdefault('name', name); kw['path'] = path
        if path in specs: raise SystemExit('duplicate contract ' + path)
        specs[path] = kw
    def L(name, text): lem['|'.join([name] + [x for x in re.findall(r'\bfn (\w+)', text) if x != name])] = text
    ns = {'F': F, 'L': L, 'NAT': 'bigint::nat::Nat::', 'BI': 'bigint::bigint::BigInt::', 'N': '<bigint::nat::Nat as ', 'Z': '<bigint::bigint::BigInt as ', 'AG': 'bigint::arith_generic::',
          'A64': 'bigint::nat_amd64::<impl bigint::nat::Nat>::', 'AVX': 'bigint::nat_avx2::<impl bigint::nat::Nat>::', 'RAT': 'bigint::rat::Rat::', 'R': '<bigint::rat::Rat as '}
    for f in sorted(glob.glob(os.path.join(V, 'specs', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), ns)
    return specs, lem

def dump():
    t = tempfile.mkdtemp(prefix='vp-dump-')
    try:
        p = subprocess.run(['bash', os.path.join(V, 'tools', 'dump.sh'), os.path.join(t, 'd.json')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return None, p.stdout
        d = json.load(open(os.path.join(t, 'd.json')))
        try: m = json.loads(open(os.path.join(t, 'd.json.macros')).read().replace('rmath::', ''))
        except (OSError, ValueError): return d, ''
        have = {f['path'] for f in d['fns'] if f}
        def loc(x):
            if isinstance(x, dict):
                if x.get('res') in have: x['reslocal'] = True
                for y in x.values(): loc(y)
            elif isinstance(x, list):
                for y in x: loc(y)
        loc(m['fns']); d['fns'] += m['fns']
        return d, ''
    finally: shutil.rmtree(t)

def align(base, cur):
    """rename current bindings to the names the contracts use (same position, or aligned by a diff)"""
    if not base or base == cur: return None
    if len(base) == len(cur): return list(base)
    names = list(cur)
    for op, a0, a1, b0, b1 in difflib.SequenceMatcher(None, base, cur, autojunk=False).get_opcodes():
        if op == 'replace' and a1 - a0 == b1 - b0:
            for k in range(a1 - a0): names[b0 + k] = base[a0 + k]
    return names

STEP = re.compile(r'\bh\.(\w+)\(|\b([A-Za-z]\w*)\(h[,)]|\b(if|else|loop|return|break)\b')
def steps(lines):
    """the calls, heap operations and branches of an extracted body, in order"""
    return [a or b or c for l in lines if not re.match(r'\s*(proof|let ghost|assert|invariant)\b', l) for a, b, c in STEP.findall(l)]

class Unit:
    pass

def gen_helpers(need):
    o = []
    mx = lambda t: 2 ** INTS[t]
    for n in sorted(need):
        m = re.fullmatch(r'cast_(\w+)_(\w+)', n)
        if m:
            a, b = m.groups(); sa, sb = a[0] == 'i', b[0] == 'i'
            if not sa and not sb: o.append('pub fn %s(x: %s) -> (r: %s) ensures r == x %% %d { (x %% %d) as %s }' % (n, a, b, mx(b), mx(b), b)) if INTS[a] > INTS[b] else o.append('pub fn %s(x: %s) -> (r: %s) ensures r == x { x as %s }' % (n, a, b, b))
            elif sa and not sb and INTS[a] == INTS[b] and INTS[a] <= 64: o.append('pub fn %s(x: %s) -> (r: %s) ensures r == if x >= 0 { x as int } else { x + %d } { if x >= 0 { x as %s } else { (x as i128 + %d) as %s } }' % (n, a, b, mx(b), b, mx(b), b))
            elif sa and not sb and INTS[a] < INTS[b] and INTS[b] <= 64: o.append('pub fn %s(x: %s) -> (r: %s) ensures r == if x >= 0 { x as int } else { x + %d } { if x >= 0 { x as %s } else { (x as i128 + %d) as %s } }' % (n, a, b, mx(b), b, mx(b), b))
            elif not sa and sb and INTS[a] <= 64 and INTS[b] <= 64: o.append('pub fn %s(x: %s) -> (r: %s) ensures r == (if x as int %% %d < %d { x as int %% %d } else { x as int %% %d - %d }) { let y = (x as i128) %% %d; if y < %d { y as %s } else { (y - %d) as %s } }' % (n, a, b, mx(b), mx(b) // 2, mx(b), mx(b), mx(b), mx(b), mx(b) // 2, b, mx(b), b))
            elif sa and sb and INTS[b] <= 64: o.append('#[verifier::external_body] pub fn %s(x: %s) -> (r: %s) ensures %d <= x < %d ==> r == x { x as %s }' % (n, a, b, -mx(b) // 2, mx(b) // 2, b))
            elif a == 'i128' and b == 'u128': o.append('#[verifier::external_body] pub fn %s(x: i128) -> (r: u128) ensures r == if x >= 0 { x as int } else { x + 0x1_0000_0000_0000_0000_0000_0000_0000_0000int } { x as u128 }' % n)
            elif sa and not sb: o.append('#[verifier::external_body] pub fn %s(x: %s) -> (r: %s) ensures 0 <= x < %d ==> r == x { x as %s }' % (n, a, b, mx(b), b))
            else: o.append('#[verifier::external_body] pub fn %s(x: %s) -> (r: %s) ensures %s x < %d ==> r == x { x as %s }' % (n, a, b, '' if not sa else '%d <= x &&' % (-mx(b) // 2), mx(b) // 2, b))
            continue
        m = re.fullmatch(r'seed_(\w+)', n)
        if m:
            t = m.group(1); o.append('#[verifier::external_body] pub fn %s(x: Sd) -> (r: Result<%s, Err>) ensures r is Ok == x.ok@, r is Ok ==> r->Ok_0 == x.v@ as %s { unimplemented!() }' % (n, t, t)); continue
        m = re.fullmatch(r'sh_(\w+)_(\w+)', n)
        if m:
            a, b = m.groups(); lo = 'x >= 0, ' if a[0] == 'i' else ''
            o.append('pub fn %s(x: %s) -> (r: %s) requires %sx < %d ensures r == x { x as %s }' % (n, a, b, lo, INTS[b], b)); continue
        m = re.fullmatch(r'shl_(\w+)', n)
        if m and m.group(1) in INTS:
            t = m.group(1)
            if t[0] == 'i':
                o.append('#[verifier::external_body] pub fn %s(x: %s, s: %s) -> (r: %s) requires 0 <= s < %d ensures x >= 0 && x * p2(s as int) < %d ==> r == x * p2(s as int) { x << s }' % (n, t, t, t, INTS[t], mx(t) // 2)); continue
            if t in ('u64', 'u128'):
                M = 2 ** (INTS[t] - 32) - 1
                o.append('pub fn %s(x: %s, s: %s) -> (r: %s) requires s < %d ensures r == x << s, s == 32 && x <= %d ==> r == x * 0x1_0000_0000 { proof { if s == 32 && x <= %d { assert(x << s == x * 0x1_0000_0000) by(bit_vector) requires s == 32, x <= %d; } } x << s }' % (n, t, t, t, INTS[t], M, M, M)); continue
            o.append('pub fn %s(x: %s, s: %s) -> (r: %s) requires s < %d ensures r == x << s { x << s }' % (n, t, t, t, INTS[t])); continue
        m = re.fullmatch(r'(overflowing|wrapping|saturating)_(\w+?)_(\w+)', n)
        if m and m.group(2) in ('add', 'sub', 'mul') and m.group(3)[0] == 'u':
            k, op, t = m.groups(); M = mx(t); c = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            E = '(x as int %s (y as int))' % c
            if k == 'wrapping': o.append('#[verifier::external_body] pub fn %s(x: %s, y: %s) -> (r: %s) ensures r == (%s) %% %d { x.%s(y) }' % (n, t, t, t, E, M, n.rsplit('_', 1)[0]))
            elif k == 'overflowing': o.append('#[verifier::external_body] pub fn %s(x: %s, y: %s) -> (r: (%s, bool)) ensures r.0 == (%s) %% %d, r.1 == (%s < 0 || %s >= %d) { x.%s(y) }' % (n, t, t, t, E, M, E, E, M, n.rsplit('_', 1)[0]))
            else: o.append('#[verifier::external_body] pub fn %s(x: %s, y: %s) -> (r: %s) ensures r == (if %s < 0 { 0 } else if %s >= %d { %d } else { %s }) { x.%s(y) }' % (n, t, t, t, E, E, M, M - 1, E, n.rsplit('_', 1)[0]))
            continue
        m = re.fullmatch(r'checked_sh([lr])_(u\w+)', n)
        if m:
            d, t = m.groups(); op = '<<' if d == 'l' else '>>'; o.append('pub fn %s(x: %s, s: u32) -> (r: Option<%s>) ensures r == (if s < %d { Some(x %s s) } else { None }) { if s < %d { Some(x %s s) } else { None } }' % (n, t, t, INTS[t], op, INTS[t], op)); continue
        m = re.fullmatch(r'wrapping_neg_(u\w+)', n)
        if m:
            t = m.group(1); o.append('#[verifier::external_body] pub fn %s(x: %s) -> (r: %s) ensures r == (%d - x) %% %d { x.wrapping_neg() }' % (n, t, t, mx(t), mx(t))); continue
        m = re.fullmatch(r'(leading_zeros|trailing_zeros)_(\w+)', n)
        if m:
            t = m.group(2); b = INTS[t]
            if m.group(1) == 'leading_zeros': o.append('#[verifier::external_body] pub fn %s(x: %s) -> (r: u32) ensures r <= %d, (x == 0) == (r == %d), x != 0 ==> p2(%d - r) <= x < p2(%d - r) { x.leading_zeros() }' % (n, t, b, b, b - 1, b))
            else: o.append('#[verifier::external_body] pub fn %s(x: %s) -> (r: u32) ensures r <= %d, (x == 0) == (r == %d), x != 0 ==> x as int %% p2(r as int) == 0 && (x as int / p2(r as int)) %% 2 == 1 { x.trailing_zeros() }' % (n, t, b, b))
            continue
        m = re.fullmatch(r'rotate_(right|left)_(u\d+)', n)
        if m:
            d, t = m.groups(); b = INTS[t]; a, c = ('>>', '<<') if d == 'right' else ('<<', '>>')
            o.append('#[verifier::external_body] pub fn %s(x: %s, s: u32) -> (r: %s) ensures 0 < s < %d ==> r == (x %s s) | (x %s ((%d - s) as u32)), s == 0 ==> r == x { x.rotate_%s(s) }' % (n, t, t, b, a, c, b, d)); continue
        m = re.fullmatch(r'(le|be)_byte_(u\w+)', n)
        if m:
            e, t = m.groups(); nb = INTS[t] // 8
            o.append('#[verifier::external_body] pub fn %s(x: %s, i: usize) -> (r: u8) requires i < %d ensures r == byte(x as int, %s) { x.to_%s_bytes()[i] }' % (n, t, nb, 'i as int' if e == 'le' else '%d - i' % (nb - 1), e)); continue
        m = re.fullmatch(r'(le|be)_bytes_(u\w+)', n)
        if m:
            e, t = m.groups(); nb = INTS[t] // 8
            o.append('#[verifier::external_body] pub fn %s(x: %s) -> (r: Vec<u8>) ensures r@ == Seq::new(%d, |i: int| byte(x as int, %s) as u8) { x.to_%s_bytes().to_vec() }' % (n, t, nb, 'i' if e == 'le' else '%d - i' % (nb - 1), e)); continue
        m = re.fullmatch(r'opt_eq_Option_(\w+)_', n)
        if m:
            t = m.group(1); o.append('pub fn %s(a: Option<%s>, b: Option<%s>) -> (r: bool) ensures r == (a == b) { match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }' % (n, t, t)); continue
        m = re.fullmatch(r'wrapping_neg_(i\w+)', n)
        if m:
            t = m.group(1); o.append('pub fn %s(x: %s) -> (r: %s) ensures r == (if x == %s::MIN { x as int } else { -x }) { if x == %s::MIN { x } else { -x } }' % (n, t, t, t, t)); continue
        m = re.fullmatch(r'abs_(i\w+)', n)
        if m:
            t = m.group(1); o.append('pub fn %s(x: %s) -> (r: %s) requires x > %s::MIN ensures r == (if x < 0 { -x } else { x as int }) { if x < 0 { -x } else { x } }' % (n, t, t, t)); continue
        o.append('/* unknown helper %s */' % n)
    return o

class Prover:
    def __init__(self, d, specs, lem, baseline):
        self.tr = translate.Translator(d, specs, {})
        self.specs, self.lem, self.baseline = specs, lem, baseline
        self.units = {}
    def unit(self, path, z=False):
        key = (path, z)
        if key in self.units: return self.units[key]
        u = Unit(); u.path = path; u.z = z; u.sp = self.specs[path]; u.bad = None; u.calls = set(); u.lines = []; u.demoted = None; u.lost = False; u.changed = False
        u.name = u.sp['zname'] if z else u.sp['name']
        self.units[key] = u
        fn = self.tr.fns.get(path)
        base = self.baseline.get(path + ('#z' if z else ''), {})
        u.sig = None
        if fn is None: u.bad = 'function is gone from the crate'; u.lost = True; return u
        try:
            F = Fn(self.tr, fn, u.sp, z); u.sig, u.lines = F.run(None)
            names = align(base.get('bind'), F.bind)
            u.bind, u.skel = F.bind, F.skel
            if names:
                F = Fn(self.tr, fn, u.sp, z); u.sig, u.lines = F.run(names)
            u.calls = F.calls
            # another shape: other control structure, other number of bindings, or the same steps in another order
            u.seq = steps(u.lines); b = base.get('seq', '').split()
            u.changed = bool(base) and (base['skel'] != u.skel or len(base['bind']) != len(u.bind) or (b != u.seq and sorted(b) == sorted(u.seq)))
        except Unsupported as e:
            u.bad = 'extraction: %s' % e
        except (KeyError, IndexError, AttributeError, TypeError, AssertionError) as e:
            u.bad = 'extraction: %s %r' % (type(e).__name__, e)
        if u.bad:
            try:
                F = Fn(self.tr, fn, u.sp, z); F.names = base.get('bind') if base.get('bind') else None; ps = F.params()
                ret = fn['ret']; unit = isinstance(ret, dict) and ret.get('tuple') == []
                hp = [] if u.sp.get('noheap') else ['h: &Heap' if u.sp.get('pure') else 'h: &mut Heap']
                u.sig = 'pub fn %s(%s)%s' % (u.name, ', '.join(hp + ps), '' if unit else ' -> (r: %s)' % extract.vt(ret))
            except Exception as e: u.lost = True
        return u
    def cone(self, roots):
        todo, seen = list(roots), []
        while todo:
            k = todo.pop(0)
            if k in seen: continue
            seen.append(k); u = self.unit(*k)
            if u.bad or u.demoted: continue
            for c in sorted(u.calls):
                z = k[1] and bool(self.specs[c].get('zname'))
                todo.append((c, z))
        return seen
    def emit(self, u):
        sp = u.sp; pure = sp.get('pure'); nh = sp.get('noheap')
        T = lambda t, post: t if nh else self.tr.sig_text(t, post, pure)
        req = sp.get('zreq' if u.z else 'req', ''); ens = 'false' if u.z else sp.get('ens', '')
        o = []
        trusted = u.bad or u.demoted
        if trusted: o.append('#[verifier::external_body]')
        else:
            if not sp.get('iso'): o.append('#[verifier::loop_isolation(false)]')
            if not sp.get('iso') and any(l.get('invx') or l.get('ens') for l in (sp.get('loops') or {}).values()): o.append('#[verifier::allow_complex_invariants]')
            if sp.get('rlimit'): o.append('#[verifier::rlimit(%d)]' % sp['rlimit'])
            o.append('#[verifier::spinoff_prover]')
            if sp.get('nodec') : o.append('#[verifier::exec_allows_no_decreases_clause]')
            if u.z: o.append('#[verifier::exec_allows_no_decreases_clause]')
        o.append(u.sig)
        if req: o.append('  requires %s,' % T(req, False).strip().rstrip(','))
        if ens: o.append('  ensures %s,' % T(ens, True).strip().rstrip(','))
        if sp.get('dec') and not trusted: o.append('  decreases %s,' % T(sp['dec'], False))
        u.sigend = len(o)
        if trusted: o.append('{ unimplemented!() }'); return o
        o.append('{')
        if not sp.get('nob'): o.append('broadcast use g;')
        if not nh: o.append('let ghost h0 = h@;')
        o += u.lines
        o.append('}')
        return o
    def text(self, keys):
        """assemble; records line spans"""
        L = ['#![allow(unused_mut, unused_variables, unused_parens, unused_assignments, dead_code, non_snake_case, unused_imports, unused_braces)]', 'use vstd::prelude::*;', 'use vstd::arithmetic::power2::*;', 'use vstd::arithmetic::div_mod::*;', 'use vstd::arithmetic::mul::*;', 'use vstd::bits::*;', 'verus! {']
        L += open(os.path.join(V, 'specs', 'prelude.rs')).read().split('\n')
        body = []; spans = []
        for k in keys:
            u = self.unit(*k)
            if u.lost or u.sig is None: continue
            o = self.emit(u); k = len('\n'.join(o[:u.sigend]).split('\n')); o = '\n'.join(o).split('\n'); u.sigend = k
            spans.append((len(body), len(body) + len(o), u, u.sigend)); body += o; body.append('')
        alltext = '\n'.join(body)
        u_need = set(self.tr.need) | set(re.findall(r'\b((?:cast|shl|sh|wrapping_neg|overflowing|wrapping|saturating|leading_zeros|trailing_zeros|rotate_right|rotate_left|abs|opt_eq|le_bytes?|be_bytes?|seed)_\w+)\(', alltext))
        u_need = {n for n in u_need if re.search(r'\b%s\(' % n, alltext)}
        H = gen_helpers(u_need)
        # lemma files the functions mention
        lemtext = []; have = set(); todo = [alltext, '\n'.join(H)]
        while todo:
            t = todo.pop()
            for n, x in self.lem.items():
                if n not in have and re.search(r'\b(?:%s)\b' % n, t):
                    have.add(n); todo.append(x)
        for n, x in self.lem.items():
            if n in have: lemtext += x.strip('\n').split('\n')
        L += self.tr.structdefs(set(re.findall(r'\w+', alltext + '\n'.join(lemtext)))) + H + lemtext
        L = [re.sub(r'^pub (broadcast )?proof fn', r'#[verifier::spinoff_prover] pub \1proof fn', l) for l in L]
        off = len(L)
        L += body + ['}', 'fn main() {}']
        return L, [(a + off, b + off, u, a + off + s) for a, b, u, s in spans]
    def run(self, keys, keep=None, threads=8, extra=(), retry=True):
        t0 = time.time()
        res = self.run1(keys, keep, threads, extra, wall=FIRST)
        if res.get('slow'):   # some query does not end: once more with small limits, so that it is named
            res = self.run1(keys, keep, threads, extra, wall=SECOND, cap=6)
        # an obligation counts as failed only when the solver rejects it under every one of several seeds
        res['retries'] = 0
        for seed in (11, 23, 47) if retry else ():
            if time.time() - t0 > RETRY: break
            if 'fatal' in res or not res['errs'] or any(e['unit'] is None for e in res['errs']): break
            if not all(e['kind'] in ('verify', 'limit') for e in res['errs']): break
            bad = {id(e['unit']) for e in res['errs']}; off = []
            if len(bad) > 12: break
            for k in keys:
                u = self.unit(*k)
                if id(u) not in bad and not u.bad and not u.demoted: u.demoted = 'retry'; off.append(u)
            try: r2 = self.run1(keys, None, threads, list(extra) + ['--smt-option', 'smt.random_seed=%d' % seed], wall=90, cap=30)
            finally:
                for u in off: u.demoted = None
            res['retries'] += 1; res['solver_ms'] += r2.get('solver_ms', 0)
            if 'fatal' in r2: break
            still = {id(e['unit']) for e in r2['errs']}
            if None in [e['unit'] for e in r2['errs']]: break
            ok = bad - still
            res['errs'] = [e for e in res['errs'] if id(e['unit']) not in ok]; res['verified'] += len(ok); res['errors'] -= len(ok)
        return res
    def run1(self, keys, keep=None, threads=8, extra=(), wall=None, cap=None):
        res = {'log': '', 'solver_ms': 0, 'verified': 0, 'errors': 0, 'per': {}}
        t = tempfile.mkdtemp(prefix='vp-verus-')
        try:
            for attempt in range(8):
                L, spans = self.text(keys)
                if cap: L = [re.sub(r'^#\[verifier::rlimit\((\d+)\)\]', lambda m: '#[verifier::rlimit(%d)]' % min(cap, int(m.group(1))), l) for l in L]
                fn = os.path.join(t, 'v.rs'); open(fn, 'w').write('\n'.join(L))
                if keep: open(keep, 'w').write('\n'.join(L))
                cmd = ['verus', 'v.rs', '--triggers-mode', 'silent', '--multiple-errors', '2', '--output-json', '--time-expanded', '--num-threads', str(threads), '--rlimit', str(cap or 60)] + list(extra)
                res['cmd'] = ' '.join(cmd)
                with subprocess.Popen(cmd, cwd=t, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True) as p:
                    try: so, se = p.communicate(timeout=wall)
                    except subprocess.TimeoutExpired:
                        os.killpg(p.pid, 9); p.communicate()
                        res['slow'] = True; res['fatal'] = 'the verifier did not finish within %d s' % wall; return res
                res['log'] = se
                try: j = json.loads(so)
                except ValueError: j = {}
                vr = j.get('verification-results', {})
                errs = self.parse(se, spans)
                ncompile = [e for e in errs if e['kind'] == 'compile']
                if 'verified' not in vr or vr.get('encountered-vir-error') or (ncompile and not vr.get('verified')):
                    # demote the functions the compiler or VIR rejects and try again
                    progressed = False
                    for e in ncompile or errs:
                        u = e['unit']
                        if u is not None and not (u.bad or u.demoted) and not e['insig']:
                            u.demoted = 'rejected by the verifier front end: %s' % e['text'][:700]; progressed = True
                        elif u is not None and e['insig'] and not u.lost:
                            u.lost = True; u.demoted = 'contract no longer fits the signature: %s' % e['msg']; progressed = True
                    if not progressed: res['fatal'] = se[-4000:]; return res
                    continue
                for m in j['times-ms'].get('smt', {}).get('smt-run-module-times', []):
                    for f in m.get('function-breakdown', []):
                        res['per'][f['function'].split('::')[-1]] = (f['success'], f['time'])
                res['solver_ms'] = j['times-ms'].get('smt', {}).get('total', 0)
                res['verified'] = vr['verified']; res['errors'] = vr['errors']; res['errs'] = errs
                return res
            res['fatal'] = 'no stable set of accepted functions\n' + se[-3000:]; return res
        finally: shutil.rmtree(t)
    def parse(self, err, spans):
        out = []
        for blk in re.split(r'\n(?=error|warning|note)', '\n' + err):
            m = re.match(r'\n?error(?:\[\w+\])?: (.*)', blk)
            if not m or 'aborting due to' in m.group(1): continue
            msg = m.group(1)
            lines = [int(x) for x in re.findall(r'-->\s+\S*?:(\d+):\d+', blk)] + [int(x) for x in re.findall(r'^\s*(\d+) +\|', blk, re.M)]
            kind = 'limit' if any(x in msg.lower() for x in LIMIT) else 'verify' if any(msg.lower().startswith(x) or x in msg.lower() for x in VERIFICATION) else 'compile'
            unit = None; insig = False; ln = None
            for l in lines:
                for a, b, u, s in spans:
                    if a + 1 <= l <= b: unit = u; insig = l <= s; ln = l; break
                if unit: 
                    if not insig or kind == 'compile': break
            if kind != 'compile':   # the body location decides (a failed postcondition names the contract line too)
                for l in lines:
                    for a, b, u, s in spans:
                        if s < l <= b: unit = u; ln = l
            out.append({'msg': msg, 'kind': kind, 'unit': unit, 'insig': insig, 'line': ln, 'text': blk.strip()})
        return out

_cache = {}
def load():
    if 'P' not in _cache:
        specs, lem = load_specs()
        d, err = dump()
        if d is None: return None, err
        bp = os.path.join(V, 'specs', 'baseline.json')
        baseline = json.load(open(bp)) if os.path.exists(bp) else {}
        _cache['P'] = Prover(d, specs, lem, baseline)
    return _cache['P'], ''

def write_baseline():
    P, err = load()
    P.baseline = {}
    out = {}
    for path, sp in P.specs.items():
        for z in ([False, True] if sp.get('zname') else [False]):
            u = P.unit(path, z)
            if not u.bad: out[path + ('#z' if z else '')] = {'bind': u.bind, 'skel': u.skel, 'seq': ' '.join(u.seq)}
    json.dump(out, open(os.path.join(V, 'specs', 'baseline.json'), 'w'), indent=0, sort_keys=True)
    print('%d functions' % len(out))

def prove(prop, tier='quick', keep=None, retry=True):
    P, err = load()
    if P is None: raise RuntimeError('cannot read /repo: ' + err[-2000:])
    roots = [(p, False) for p, s in P.specs.items() if prop in s.get('props', '').split()]
    roots += [(p, True) for p, s in P.specs.items() if s.get('zname') and prop in s.get('zprops', '').split()]
    if not roots: return None
    keys = P.cone(roots)
    return outcome(P, keys, P.run(keys, keep, retry=retry))

def outcome(P, keys, r):
    failed, undecided = [], []
    for k in keys:
        u = P.unit(*k)
        if u.sp.get('trusted'): continue
        if u.bad: undecided.append({'fn': u.path, 'why': u.bad})
        elif u.demoted: undecided.append({'fn': u.path, 'why': u.demoted})
    if 'fatal' in r:
        return {'failed': [], 'obligations': 0, 'discharged': 0, 'cmd': r.get('cmd', ''), 'trusted': ['verifier gave no answer'], 'functions': [], 'undecided': undecided + [{'fn': 'all', 'why': r['fatal'][-1500:]}], 'bounded': [], 'backend': 'Verus/Z3', 'solver_s': 0.0, 'log': r['log'], 'fatal': r['fatal']}
    und = {}
    for e in r['errs']:
        u = e['unit']
        if u is None:
            failed.append({'what': 'prelude or lemma: ' + e['msg'], 'text': e['text']}); continue
        if e['kind'] == 'limit': und.setdefault(u.name, {'fn': u.path, 'why': 'solver limit: ' + e['msg']})
        elif e['kind'] == 'compile': und.setdefault(u.name, {'fn': u.path, 'why': e['msg']})
        elif u.changed: und.setdefault(u.name, {'fn': u.path, 'why': 'shape changed and contract not re-established: ' + e['msg']})
        else: failed.append({'what': '%s: %s' % (u.path, e['msg']), 'fn': u.path, 'text': e['text']})
    undecided += list(und.values())
    und_names = {x['fn'] for x in undecided}
    fns = [P.unit(*k) for k in keys]
    good = [u for u in fns if not u.bad and not u.demoted and u.path not in und_names]
    return {'failed': failed, 'obligations': r['verified'] + r['errors'], 'discharged': r['verified'], 'cmd': r['cmd'], 'trusted': trusted_base(P, keys), 'functions': sorted({u.path for u in good}), 'undecided': undecided,
            'bounded': [u['fn'] for u in undecided], 'backend': 'Verus 0.2026.09.13 / Z3', 'solver_s': r['solver_ms'] / 1000.0, 'log': r['log']}

def lean_check(ax):
    """the axioms are theorems of Mathlib, proved in lemmas/number_theory.lean under the same names"""
    import shutil
    f = os.path.join(V, 'lemmas', 'number_theory.lean'); s = open(f).read()
    miss = [a for a in ax if not re.search(r'theorem %s\b' % a, s)]
    if miss: return 'no Lean proof of ' + ', '.join(miss)
    if not shutil.which('lean'): return 'proved in lemmas/number_theory.lean, Lean not available to re-check in this run'
    try: r = subprocess.run(['lean', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
    except subprocess.TimeoutExpired: return 'proved in lemmas/number_theory.lean, re-check ran out of time in this run'
    if r.returncode or 'error' in r.stdout or 'sorry' in r.stdout: return 'Lean rejects lemmas/number_theory.lean: ' + r.stdout[-500:]
    return 'each proved by Lean 4/Mathlib in this run (lemmas/number_theory.lean; that the Lean and Verus statements correspond is by inspection)'
def trusted_base(P, keys):
    t = ['extraction (tools/extract.py, tools/translate.py) and thirdump: THIR of the current tree to Verus text, changes listed in DESIGN.md',
         'Verus, Z3 and vstd', 'oom(): a buffer of more than 2^32 words is never allocated (the allocator diverges)']
    L, _ = P.text(keys)
    txt = '\n'.join(L)
    ext = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub fn (\w+)', txt): ext.append(m.group(1))
    t.append('assumed contracts (external_body): ' + ', '.join(sorted(set(ext))))
    ax = sorted(set(re.findall(r'proof fn (axiom_\w+)', txt)))
    if ax: t.append('number theory stated as axioms in specs/p_jac.py (%s): %s' % (', '.join(ax), lean_check(ax)))
    if re.search(r'\bassume\(|\badmit\(', txt): t.append('assume/admit present')
    return t

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--baseline': write_baseline(); sys.exit(0)
    keep = None
    if '--keep' in a: i = a.index('--keep'); keep = a[i + 1]; a = a[:i] + a[i + 2:]
    P, err = load()
    if P is None: print(err); sys.exit(2)
    t0 = time.time()
    if a[0] == 'fn':
        # verify only the named functions (callees by contract)
        byname = {s['name']: p for p, s in P.specs.items()}
        zby = {s['zname']: p for p, s in P.specs.items() if s.get('zname')}
        keys = [(byname[n], False) if n in byname else (zby[n], True) for n in a[1:]]
        want = list(keys)
        allk = list(keys)
        for k in keys:
            for c in sorted(P.unit(*k).calls):
                kk = (c, k[1] and bool(P.specs[c].get('zname')))
                if kk not in allk: allk.append(kk); P.unit(*kk).demoted = 'by contract'
        keys = allk
    elif a[0] == 'all':
        keys = P.cone([(p, False) for p in P.specs] + [(p, True) for p, s in P.specs.items() if s.get('zname')]); want = keys
    else:
        roots = [(p, False) for p, s in P.specs.items() if a[0] in s.get('props', '').split()] + [(p, True) for p, s in P.specs.items() if s.get('zname') and a[0] in s.get('zprops', '').split()]
        keys = P.cone(roots); want = keys
    r = P.run(keys, keep)
    o = outcome(P, keys, r)
    if 'fatal' in o: print('FATAL', o['fatal'])
    for f in o['failed']: print('FAILED', f['what']); print(f['text'][:1500])
    for u in o['undecided']:
        if u['why'] != 'by contract': print('UNDECIDED', u['fn'], u['why'][:600])
    print('verified %s of %s, %.1f s solver, %.1f s wall' % (o['discharged'], o['obligations'], o['solver_s'], time.time() - t0))
    slow = sorted(((t, n) for n, (s, t) in r.get('per', {}).items()), reverse=True)[:6]
    print('slowest', slow)
