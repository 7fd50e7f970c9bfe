"""Mechanical extraction of /repo's functions into Verus.

Input: the JSON written by thirdump (typed, macro-expanded, desugared bodies of the current working tree).
Output: one Verus function per contracted Rust function, same control flow and same operations, with these representation changes
(the complete list of what the extraction changes or drops; see DESIGN.md):
  * memory: every Vec<u32> buffer (Nat's Rc<Cell<Vec<u32>>>, local Vec<u32>) is a cell of an explicit heap `h`; Nat / &Nat / &mut Nat /
    &Vec<u32> are the cell number, &[u32] is (cell, lo, hi), *u32 is (cell, offset).  Clone of a Nat (an Rc clone) copies the cell number,
    so sharing and aliasing are exactly those of the Rc.  Reference counts, capacities and deallocation are dropped.
  * iterator chains become counted while loops over the same elements in the same order; closures are inlined.
  * helper functions without a contract are inlined.
  * panic messages and error texts are dropped; format!/write! keep their text (template decoded), a Formatter is its `#` flag and the text written.
"""
import json, re, struct, sys

RESERVED = set('h O H final old int nat real r tracked ghost proof spec exec assert assume forall exists choose closed open is has matches g h0 broadcast invariant requires ensures decreases trigger'.split())
class Unsupported(Exception): pass
def isint(t): return isinstance(t, str) and t in INTS

INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}

# ------------------------------------------------------------------ types
FLT = {'f64': 'F64', 'f32': 'F32'}   # floating point values are their bit patterns
def isadt(t, name): return isinstance(t, dict) and 'adt' in t and (t['adt'] == name or t['adt'].endswith('::' + name))
def strip(t):
    while isinstance(t, dict) and 'ref' in t: t = t['ref']
    return t
def is_u32(t): return t == 'u32'
def is_cell(t):
    if isadt(t, 'Nat'): return True
    if isadt(t, 'Vec') and t['args'] and t['args'][0] == 'u32': return True
    if isadt(t, 'Rc') or isadt(t, 'Cell'): return bool(t['args']) and is_cell(t['args'][0])
    return False
def vt(t):
    """Verus type text of a Rust type"""
    if isinstance(t, str):
        if t in INTS or t in ('bool', 'char'): return t
        if t in FLT: return FLT[t]
        if t == '!': return '()'
        if t == 'str': return 'Str'
        raise Unsupported('type ' + t)
    if 'ref' in t:
        u = t['ref']
        if isinstance(u, dict) and 'slice' in u: return 'Sl' if u['slice'] == 'u32' else 'Vec<%s>' % vt(u['slice'])
        return vt(u)
    if is_cell(t): return 'usize'
    if 'ptr' in t: return 'Ptr'
    if 'tuple' in t: return '(' + ', '.join(map(vt, t['tuple'])) + ('' if len(t['tuple']) != 1 else ',') + ')'
    if 'array' in t:
        return '[%s; %s]' % (vt(t['array']), t['len'])
    if 'slice' in t: return 'Sl' if t['slice'] == 'u32' else 'Vec<%s>' % vt(t['slice'])
    if 'adt' in t:
        n = t['adt'].split('::')[-1]
        if n == 'Vec': return 'Vec<%s>' % vt(t['args'][0])
        if n == 'Option': return 'Option<%s>' % vt(t['args'][0])
        if n == 'Result': return 'Result<%s, %s>' % (vt(t['args'][0]), t['args'][1] if isint(t['args'][1]) else 'Err')
        if n == 'Cell': return vt(t['args'][0])
        if n in GENERIC and len(t['args']) == 1 and isint(t['args'][0]): return '%s_%s' % (n, t['args'][0])
        if n == 'Ordering': return 'Ordering'
        if n == 'String': return 'Str'
        if n == 'Formatter': return 'Fm'
        if t['adt'] == 'core::fmt::Error': return 'Err'
        if n == '__m256i': return 'M256'
        if n in ('RandError', 'NatError', 'RatError'): return 'Err'
        if n in STRUCTS: return n
    if t.get('param') == 'Sd': return 'Sd'
    if 'param' in t: return 'Rng' if t['param'].startswith('Rng') else 'u32' if t['param'] == 'P' else t['param']
    raise Unsupported('type %s' % json.dumps(t)[:120])
STRUCTS = {'BigInt', 'BISign', 'Rat'}
GENERIC = {'LinearCongruentialRand', 'MersenneTwisterRand', 'LaggedFibonacciRand', 'OnceSeed'}   # structs over T, one copy per integer type

# ------------------------------------------------------------------ values and places
class V:
    def __init__(self_, k, /, **a): self_.k = k; self_.__dict__.update(a)
    def __repr__(s): return 'V(%s)' % ', '.join('%s=%r' % x for x in s.__dict__.items())
def sc(s, t): return V('sc', s=s, t=t)          # native value: text, verus type
def cell(s): return V('cell', s=s)
def tup(l): return V('tup', l=l)
UNIT = V('unit'); NEVER = V('never')
class P:
    def __init__(self_, k, /, **a): self_.k = k; self_.__dict__.update(a)
    def __repr__(s): return 'P(%s)' % ', '.join('%s=%r' % x for x in s.__dict__.items())

OPS = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'Shl': '<<', 'Shr': '>>',
       'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}

def simple(s): return re.fullmatch(r'[A-Za-z_][A-Za-z_0-9]*|-?[0-9]+[a-z0-9]*', s) is not None
def par(s): return s if simple(s) or re.fullmatch(r'[\w.]+', s) or (s.startswith('(') and match_paren(s)) else '(' + s + ')'
def match_paren(s):
    d = 0
    for i, c in enumerate(s):
        if c == '(': d += 1
        elif c == ')':
            d -= 1
            if d == 0: return i == len(s) - 1
    return False
def add(a, b):
    if a in ('0', '0usize'): return b
    if b in ('0', '0usize'): return a
    return '(%s + %s)' % (a, b)
def sub(a, b): return a if b in ('0', '0usize') else '(%s - %s)' % (a, b)

def charlit(c):
    o = ord(c)
    return "'%s'" % (c if 32 <= o < 127 and c not in "'\\" else '\\u{%x}' % o)
def strlit(s): return 'str_lit(Ghost(Seq::<char>::empty()%s))' % ''.join('.push(%s)' % charlit(c) for c in s)

class Fn:
    """translation of one contracted function"""
    def __init__(self, tr, fn, spec, zmode=False):
        self.tr, self.fn, self.spec, self.z = tr, fn, spec, zmode
        self.out = []; self.ntmp = 0; self.env = {}; self.nloop = 0; self.used = {}; self.mutn = set(); self.labels = {}
        self.calls = set(); self.inl = []; self.bind = []; self.cnt = {}; self.nif = 0; self.skel = []
        self.retstack = []
        self.base = tr.baseline.get(fn['path'], [])
        self.alias = None
        self.decl = []
    # ---- emission helpers
    def emit(self, s): self.out.append(s)
    def tmp(self): self.ntmp += 1; return 't%d' % self.ntmp
    def lettmp(self, text, ty=None):
        n = self.tmp(); self.emit('let %s%s = %s;' % (n, ': ' + ty if ty else '', text)); return n
    def name(self, nm):
        nm = 'slf' if nm == 'self' else nm + '_v' if nm in RESERVED or nm in self.tr.fnames() or re.match(r'(?:(?:t|n|i|hl|ha|acc|pos|col)\d+(?:_\w+)?|\w+_\d+)$', nm) else nm
        k = len(self.bind); self.bind.append(nm)
        if self.names is not None and k < len(self.names): want = self.names[k]
        else: want = nm
        c = self.used.get(want, 0); self.used[want] = c + 1
        return want if c == 0 else '%s_%d' % (want, c)
    def sub(self, f):
        """run f with a fresh buffer; returns (lines, result)"""
        o = self.out; self.out = []
        try: r = f()
        finally: l, self.out = self.out, o
        return l, r
    def hint(self, key):
        t = (self.spec.get('at') or {}).get(key)
        if isinstance(t, tuple):
            for g in t[:-1]: self.emit('let ghost %s;' % self.ht(g))
            t = t[-1]
        if t: self.emit('proof { %s }' % self.ht(t))
    def ht(self, t): return self.tr.body_text(t)
    # ---- values
    def mat(self, v, ty=None):
        """native text of a value"""
        k = v.k
        if k in ('sc', 'cell'): return v.s
        if k == 'sl': return v.s if getattr(v, 's', None) else 'Sl { c: %s, lo: %s, hi: %s }' % (v.c, v.lo, v.hi)
        if k == 'ptr': return v.s if getattr(v, 's', None) else 'Ptr { c: %s, o: %s }' % (v.c, v.o)
        if k == 'tup': return '(' + ', '.join(self.mat(x) for x in v.l) + (',' if len(v.l) == 1 else '') + ')'
        if k == 'unit': return '()'
        if k == 'never': return 'unreached()'
        if k == 'ref': return self.mat(self.read(v.p))
        if k == 'sopt':
            l, x = self.sub(lambda: self.mat(self.deref_copy(v.pay())))
            return '(if %s { %s Some(%s) } else { None })' % (v.cond, ' '.join(l), x)
        if k == 'err': return 'Err { e: 0 }'
        if k == 'strlit': return strlit(v.v)
        raise Unsupported('value of kind %s used natively' % k)
    def deref_copy(self, v):
        while v.k == 'ref': v = self.read(v.p)
        return v
    def demat(self, s, t):
        """value of native text s with Rust type t"""
        if isinstance(t, dict) and 'ref' in t:
            u = t['ref']
            if isinstance(u, dict) and 'slice' in u and u['slice'] == 'u32': return V('sl', c=s + '.c', lo=s + '.lo', hi=s + '.hi', s=s)
            return V('ref', p=P('val', v=self.demat(s, u)))
        if is_cell(t): return cell(s)
        if isinstance(t, dict) and 'ptr' in t: return V('ptr', c=s + '.c', o=s + '.o', s=s)
        if isinstance(t, dict) and 'tuple' in t:
            if not t['tuple']: return UNIT
            return tup([self.demat('%s.%d' % (s, i), x) for i, x in enumerate(t['tuple'])])
        if t == '!': return NEVER
        return sc(s, vt(t))
    def stable(self, s):
        if re.search(r'\bh\b', s): return False
        return not any(w in self.mutn for w in re.findall(r'[A-Za-z_]\w*', s))
    def stab(self, v):
        if v.k in ('sc', 'cell'):
            if not self.stable(v.s): v = V(v.k, **{**{k: x for k, x in v.__dict__.items() if k != 'k'}, 's': self.lettmp(v.s)})
        elif v.k == 'tup': v = tup([self.stab(x) for x in v.l])
        elif v.k == 'sl':
            if not all(map(self.stable, (v.c, v.lo, v.hi))): v = V('sl', c=self.lettmp(v.c), lo=self.lettmp(v.lo), hi=self.lettmp(v.hi))
        elif v.k == 'ptr':
            if not all(map(self.stable, (v.c, v.o))): v = V('ptr', c=self.lettmp(v.c), o=self.lettmp(v.o))
        return v
    def exprs(self, l):
        vs = []
        for e in l:
            n = len(self.out); v = self.expr(e)
            if len(self.out) != n and vs:
                new = self.out[n:]; self.out = self.out[:n]
                vs = [self.stab(x) for x in vs]; self.out += new
            vs.append(v)
        return vs
    # ---- places
    def read(self, p):
        k = p.k
        if k == 'var': return self.demat(p.s, p.t) if not getattr(p, 'sym', None) else p.sym
        if k == 'sym': return p.v
        if k == 'val': return p.v
        if k == 'slot': return sc(self.lettmp('h.get(%s, %s)' % (p.c, p.i), 'u32'), 'u32')
        if k == 'elem': return self.demat(self.lettmp('%s[%s]' % (p.vs, p.i)), p.t)
        if k == 'field': return self.demat(p.s, p.t)
        if k == 'lvar': return sc(p.s, p.t)
        if k == 'rebind': return V('ref', p=P('var', s=p.s, t=p.t, rb=True))
        raise Unsupported('read place ' + k)
    def chk(self): return 'zchk' if self.z else 'chk'
    def assign(self, p, v):
        k = p.k
        if k == 'slot': self.emit('h.set(%s, %s, %s);' % (p.c, p.i, self.mat(v))); return
        if k in ('var', 'field', 'lvar'):
            if getattr(p, 'frozen', False): raise Unsupported('assignment through a shared handle')
            self.emit('%s = %s;' % (p.s, self.mat(v))); return
        if k == 'elem': self.emit('%s.set(%s, %s);' % (p.vs, p.i, self.mat(v))); return
        if k == 'sym' and p.v.k == 'lptr' and v.k == 'lptr' and p.v.base == v.base and getattr(p.v, 'ov', None):
            self.emit('%s = %s;' % (p.v.ov, v.o)); return
        raise Unsupported('assign place %s' % k)
    def fieldp(self, p, name, i, t):
        if p.k == 'var' or p.k == 'field' or p.k == 'lvar':
            if p.k == 'var' and is_cell(p.t): return P('var', s=p.s, t=t, frozen=True)     # Nat.nat
            if p.k == 'field' and is_cell(p.t): return P('var', s=p.s, t=t, frozen=True)
            return P('field', s='%s.%s' % (p.s, name), t=t)
        v = self.read(p)
        if v.k == 'rngit':
            if name == 'inner': return P('var', s='(*rng)', t={'param': 'Rng'})
            if name == 'last_err': return P('var', s=v.err, t=t)
        if v.k == 'tup': return P('val', v=v.l[i])
        if v.k == 'cell': return P('val', v=v)
        if v.k == 'sc': return P('field', s='%s.%s' % (par(v.s), name), t=t)
        raise Unsupported('field of ' + v.k)
    def place(self, e):
        k = e['k']
        if k == 'var': return self.env[e['id']] if e['id'] in self.env else self.bad('unbound ' + e['name'])
        if k == 'deref':
            v = self.expr(e['a'])
            if v.k == 'ref': return v.p
            return P('val', v=v)        # value representation of references (cells, slices, structs by value)
        if k == 'field':
            return self.fieldp(self.place(e['a']), e.get('name', str(e['i'])), e['i'], e['ty'])
        if k == 'index':
            b = self.place(e['a']); i = self.expr(e['i']); v = self.read(b)
            if v.k == 'sl': return P('slot', c=v.c, i=self.idx(v.lo, i.s))
            if v.k == 'cell': return P('slot', c=v.s, i=i.s)
            return P('elem', vs=v.s, i=i.s, t=e['ty'])
        if k == 'const' or k == 'call' or k == 'block' or k == 'if' or k == 'match': return P('val', v=self.expr(e))
        if k == 'assign' or k == 'un' or True: return P('val', v=self.expr(e))
    def idx(self, lo, i): return add(lo, i)
    def bad(self, m): raise Unsupported(m)
    # ---- expressions
    def expr(self, e):
        m = getattr(self, 'x_' + e['k'], None)
        if not m: raise Unsupported('expression ' + e['k'] + ' ' + str(e.get('what', ''))[:60])
        return m(e)
    def x_var(self, e): return self.read(self.place(e))
    def x_deref(self, e): return self.read(self.place(e))
    def x_field(self, e): return self.read(self.place(e))
    def x_index(self, e): return self.read(self.place(e))
    def x_borrow(self, e):
        t = e['a']['ty']
        if isinstance(t, dict) and 'slice' in t: return self.read(self.place(e['a']))
        p = self.place(e['a'])
        if p.k == 'val' and p.v.k in ('it', 'clo', 'sl', 'ptr', 'nsl'): return V('ref', p=p)
        return V('ref', p=p)
    x_rawborrow = x_borrow
    def x_int(self, e):
        t = e['ty'] if isinstance(e['ty'], str) else 'i32'
        if t not in INTS: raise Unsupported('literal ' + str(t))
        return sc(e['v'] + t if not e['v'].startswith('-') else '(%s%s)' % (e['v'], t), t)
    def x_bool(self, e): return sc('true' if e['v'] else 'false', 'bool')
    def x_charlit(self, e): return sc("'\\u{%x}'" % e['v'] if not (chr(e['v']).isalnum() or chr(e['v']) in ' +-./_') else "'%s'" % chr(e['v']), 'char')
    def x_str(self, e): return V('strlit', v=e['v'])
    def x_float(self, e):
        t = e['ty']; b = struct.unpack('<Q' if t == 'f64' else '<I', struct.pack('<d' if t == 'f64' else '<f', float(e['v'].replace('_', '').replace('f64', '').replace('f32', ''))))[0]
        return self.fbits(b, t)
    def fbits(self, b, t): return sc(self.lettmp('%s { b: %d }' % (FLT[t], b), FLT[t]), FLT[t])
    def x_const(self, e):
        if 'v' in e and e['ty'] in FLT: return self.fbits(int(e['v']), e['ty'])
        if 'v' in e and isinstance(e['ty'], str): return sc(e['v'] + e['ty'] if e['ty'] in INTS else ('true' if e['v'] == '1' else 'false'), e['ty'])
        if 'body' in e and e['body']: return self.expr(e['body']['body'])
        raise Unsupported('const ' + e['path'])
    def x_tuple(self, e): return tup(self.exprs(e['a'])) if e['a'] else UNIT
    def x_array(self, e):
        vs = self.exprs(e['a'])
        return V('arr', l=vs, t=e['ty'])
    def x_zst(self, e): return UNIT
    def x_coerce(self, e): return self.expr(e['a'])
    def x_cast(self, e):
        src = e['a']['ty']; dst = e['ty']; v = self.deref_copy(self.expr(e['a']))
        if v.k == 'ptr' or (isinstance(dst, dict) and 'ptr' in dst): return v
        if v.k != 'sc': raise Unsupported('cast of ' + v.k)
        return sc(self.cast(v.s, src, dst), vt(dst))
    def cast(self, s, src, dst):
        if src == dst: return s
        if src in FLT or dst in FLT:
            if src in FLT and dst in FLT: return '%s_from_%s(%s)' % (dst, src, s)
            if dst == 'f64' and src in ('u8', 'u16', 'u32', 'u64', 'usize'): return 'f64_from_u64(%s)' % self.cast(s, src, 'u64')
            raise Unsupported('cast %s -> %s' % (src, dst))
        if src == 'bool': return '(%s as %s)' % (par(s), dst)
        if src == 'char':
            if dst == 'u32': return '(%s as u32)' % par(s)
            return 'cast_u32_%s(%s as u32)' % (dst, par(s)) if dst == 'u8' else '(%s as %s)' % (par(s), dst)
        if src == 'u8' and dst == 'char': return '(%s as char)' % par(s)
        if src in INTS and dst in INTS:
            ss, ds = src[0] == 'i', dst[0] == 'i'
            if (INTS[src] <= INTS[dst] and ss == ds) or (not ss and ds and INTS[src] < INTS[dst]): return '(%s as %s)' % (par(s), dst)
            m = re.fullmatch(r'(\d+)' + src, s)
            if m and int(m.group(1)) < 2 ** (INTS[dst] - (1 if ds else 0)): return m.group(1) + dst
            self.tr.need.add('cast_%s_%s' % (src, dst))
            return 'cast_%s_%s(%s)' % (src, dst, s)
        raise Unsupported('cast %s -> %s' % (src, dst))
    def x_un(self, e):
        v = self.deref_copy(self.expr(e['a']))
        if e['op'] == 'Not': return sc('!' + par(v.s), v.t)
        if e['op'] == 'Neg' and v.t in ('F64', 'F32'): return sc(self.lettmp('%s_neg(%s)' % (v.t.lower(), v.s), v.t), v.t)
        if e['op'] == 'Neg': return sc('(-' + par(v.s) + ')', v.t)
        raise Unsupported('unary ' + e['op'])
    def x_bin(self, e):
        a, b = self.exprs([e['l'], e['r']])
        return self.binop(e['op'], a, b, e['l']['ty'])
    def binop(self, op, a, b, lt):
        a, b = self.deref_copy(a), self.deref_copy(b)
        if a.k == 'ptr' and b.k == 'ptr' and op in ('Eq', 'Ne'):
            s = '(%s == %s && %s == %s)' % (a.c, b.c, a.o, b.o)
            return sc(s if op == 'Eq' else '!' + s, 'bool')
        if a.k == 'cellptr' and b.k == 'cellptr' and op in ('Eq', 'Ne'): return sc('(%s %s %s)' % (a.s, OPS[op], b.s), 'bool')
        if a.k != 'sc' or b.k != 'sc': raise Unsupported('binary %s on %s,%s' % (op, a.k, b.k))
        if a.t in ('F64', 'F32'):
            t = 'bool' if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else a.t
            return sc(self.lettmp('%s_%s(%s, %s)' % (a.t.lower(), op.lower(), a.s, b.s), t), t)
        o = OPS[op]
        la, lb = self.lit(a), self.lit(b)
        if la is not None and lb is not None:
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return sc('true' if eval('%d %s %d' % (la, o, lb)) else 'false', 'bool')
            if op in ('Add', 'Sub', 'Mul', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor') or (op in ('Div', 'Rem') and lb):
                x = eval('%d %s %d' % (la, '//' if op == 'Div' else o, lb))
                if 0 <= x < 2 ** (INTS[a.t] - (a.t[0] == 'i')): return sc('%d%s' % (x, a.t), a.t)
        if op in ('Shl', 'Shr'):
            bs = b.s
            if b.t != a.t:
                m = re.fullmatch(r'(\d+)' + b.t, b.s)
                bs = m.group(1) + a.t if m else self.shcast(b.s, b.t, a.t)
            if op == 'Shl' and a.t in ('u32', 'u64', 'usize', 'u128', 'i32', 'i64', 'isize'):
                self.tr.need.add('shl_' + a.t)
                m = re.fullmatch(r'(\d+)' + a.t, bs)
                return sc('shl_%s(%s, %s)' % (a.t, a.s, bs), a.t)
            if op == 'Shl': raise Unsupported('<< on ' + a.t)
            return sc('(%s %s %s)' % (a.s, o, bs), a.t)
        t = 'bool' if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else a.t
        # keep literal operands typed
        return sc('(%s %s %s)' % (a.s, o, b.s), t)
    def lit(self, v):
        m = re.fullmatch(r'(\d+)(?:[ui]\d+|usize|isize)', v.s)
        return int(m.group(1)) if m else None
    def shcast(self, s, src, dst):
        n = 'sh_%s_%s' % (src, dst); self.tr.need.add(n); return '%s(%s)' % (n, s)
    def x_logic(self, e):
        a = self.expr(e['l']).s
        l, b = self.sub(lambda: self.expr(e['r']))
        if b.k == 'never': raise Unsupported('diverging logic operand')
        if not l: return sc('(%s %s %s)' % (a, '&&' if e['op'] == 'And' else '||', b.s), 'bool')
        if e['op'] == 'And': return sc(self.lettmp('if %s { %s %s } else { false }' % (a, ' '.join(l), b.s), 'bool'), 'bool')
        return sc(self.lettmp('if %s { true } else { %s %s }' % (a, ' '.join(l), b.s), 'bool'), 'bool')
    def x_assign(self, e):
        # evaluate the right side first (Rust does the same for assignment)
        lt = e['l']
        v = self.expr(e['r'])
        if v.k == 'arr' or v.k in ('it', 'clo'): raise Unsupported('assignment of ' + v.k)
        if lt['k'] == 'var':
            p = self.env[lt['id']]
            if p.k == 'rebind':     # variable that holds a reference to a cell or a struct moved by swapping
                self.emit('%s = %s;' % (p.s, self.mat(v))); return UNIT
        l0 = len(self.out); p = self.place(lt)
        if p.k == 'val': raise Unsupported('assignment to a value')
        self.assign(p, v)
        return UNIT
    def x_assignop(self, e):
        op = e['op'].replace('Assign', '')
        r = self.deref_copy(self.expr(e['r'])); p = self.place(e['l'])
        a = self.read(p)
        self.assign(p, self.binop(op, a, r, e['l']['ty']))
        return UNIT
    # ---- blocks and statements
    def x_block(self, e):
        if e.get('tbb'): raise Unsupported('labelled block')
        for k, s in enumerate(e['stmts']):
            if s['k'] == 'let':
                if 'else' in s: raise Unsupported('let else')
                if 'init' not in s:
                    self.bindvar_uninit(s['pat']); continue
                v = self.expr(s['init'])
                if v.k == 'never': return NEVER
                self.bindpat(s['pat'], v, s['init'])
            else:
                v = self.expr(s['e'])
                if v.k == 'never': return NEVER
                if v.k == 'it': pass
        return self.expr(e['e']) if 'e' in e else UNIT
    def bindvar_uninit(self, p):
        if p['k'] != 'bind': raise Unsupported('uninitialised pattern')
        n = self.name(p['name']); self.mutn.add(n)
        self.emit('let mut %s: %s;' % (n, vt(p['vty']))); self.env[p['var']] = P('var', s=n, t=p['vty'])
    def bindpat(self, p, v, init=None):
        k = p['k']
        if k == 'wild':
            return
        if k == 'deref':
            if v.k == 'ref': return self.bindpat(p['sub'], self.read(v.p))
            return self.bindpat(p['sub'], v)
        if k == 'leaf':
            if v.k == 'ref':
                v0 = self.read(v.p)
                if v0.k == 'tup': v = tup([V('ref', p=P('val', v=x)) if x.k != 'ref' else x for x in v0.l])
                else: raise Unsupported('pattern through reference')
            if v.k == 'sc':
                n = self.lettmp(v.s); v = self.demat(n, p['ty'])
            if v.k == 'unit' and not p['subs']: return
            if v.k != 'tup': raise Unsupported('tuple pattern on ' + v.k)
            subs = p['subs']
            for s in subs:
                if len(subs) > 1: v.l[s['i']] = self.stabm(v.l[s['i']])
            for s in subs: self.bindpat(s['p'], v.l[s['i']], init['a'][s['i']] if init and init['k'] == 'tuple' else None)
            return
        if k == 'bind':
            if 'sub' in p: raise Unsupported('@ pattern')
            if p['byref']: v = V('ref', p=P('val', v=v)) if v.k != 'ref' else v
            return self.bindvar(p, v, init)
        raise Unsupported('pattern ' + k)
    def stabm(self, v):
        return self.stab(v)
    def bindvar(self, p, v, init=None):
        t = p['vty']; mut = p['mut']
        if v.k in ('sc', 'cell'):
            n = self.name(p['name'])
            once = vt(t).startswith('OnceSeed_')  # its Cell changes through a shared reference
            if mut: self.mutn.add(n)
            self.emit('let %s%s: %s = %s;' % ('mut ' if mut or once else '', n, vt(t), v.s))
            self.env[p['var']] = P('var', s=n, t=t); return
        if v.k == 'never': self.env[p['var']] = P('val', v=v); return
        if v.k == 'sopt' or (v.k in ('sl', 'ptr') and mut):
            n = self.name(p['name'])
            if mut: self.mutn.add(n)
            self.emit('let %s%s: %s = %s;' % ('mut ' if mut else '', n, vt(t), self.mat(v))); self.env[p['var']] = P('var', s=n, t=t); return
        if v.k == 'sl' or v.k == 'ptr':
            # name the parts, so that contracts can refer to them
            n = self.name(p['name']); self.emit('let %s: %s = %s;' % (n, vt(t), self.mat(v))); self.env[p['var']] = P('var', s=n, t=t); return
        if v.k == 'ref' and mut:
            u = t['ref'] if isinstance(t, dict) and 'ref' in t else None
            if u is not None and is_cell(u):
                n = self.name(p['name']); self.mutn.add(n); self.emit('let mut %s: usize = %s;' % (n, self.mat(v)))
                self.env[p['var']] = P('rebind', s=n, t=u); return
            if u is not None and vt(u) in STRUCTS and init is not None and init['k'] == 'borrow' and init['a']['k'] == 'var' and self.tr.occ(self.fn, init['a']['id']) == 1:
                n = self.name(p['name']); self.mutn.add(n); self.emit('let mut %s: %s = %s;' % (n, vt(u), self.mat(v)))
                self.env[p['var']] = P('rebind', s=n, t=u); return
            raise Unsupported('reassignable reference')
        if v.k == 'ref' and v.p.k == 'var' and getattr(v.p, 'rb', False):
            n = self.name(p['name']); self.emit('let %s: %s = %s;' % (n, 'usize' if is_cell(v.p.t) else vt(v.p.t), self.mat(v)))
            self.env[p['var']] = P('rebind', s=n, t=v.p.t); return
        if v.k == 'ref':
            self.name(p['name']); pl = v.p
            if pl.k == 'val': pl = P('val', v=self.stab(pl.v))
            elif pl.k == 'slot' and not (self.stable(pl.c) and self.stable(pl.i)): pass
            elif pl.k in ('var',) and pl.s in self.mutn and is_cell(pl.t) and not (isinstance(t, dict) and t.get('mut')): pass
            self.env[p['var']] = P('sym', v=V('ref', p=pl)); return
        if v.k == 'it':
            self.name(p['name'])
            if mut:
                pos = 'pos%d' % self.cnt.get('itpos', 0); self.cnt['itpos'] = self.cnt.get('itpos', 0) + 1; self.mutn.add(pos); self.emit('let mut %s: usize = 0;' % pos)
                v = V('it', **{**v.__dict__, 'k': 'it', 'pos': pos}) if False else self.it_pos(v, pos)
            self.env[p['var']] = P('sym', v=v); return
        if v.k == 'lptr':
            n = self.name(p['name'])
            self.mutn.add(n); self.emit('let mut %s: usize = %s;' % (n, v.o)); self.env[p['var']] = P('sym', v=V('lptr', base=v.base, o=n, ov=n, t=v.t)); return
        if v.k == 'arr' and any(x.k == 'farg' for x in v.l): self.name(p['name']); self.env[p['var']] = P('sym', v=v); return
        if v.k == 'arr':
            n = self.name(p['name'])
            if mut: self.mutn.add(n)
            self.emit('let %s%s: %s = [%s];' % ('mut ' if mut else '', n, vt(t), ', '.join(self.mat(x) for x in v.l))); self.env[p['var']] = P('var', s=n, t=t); return
        if v.k == 'tup':
            if mut or all(x.k in ('sc', 'cell') for x in v.l):
                n = self.name(p['name'])
                if mut: self.mutn.add(n)
                self.emit('let %s%s: %s = %s;' % ('mut ' if mut else '', n, vt(t), self.mat(v))); self.env[p['var']] = P('var', s=n, t=t); return
            self.name(p['name']); self.env[p['var']] = P('sym', v=self.stab(v)); return
        if v.k in ('rngit', 'clo', 'unit', 'strlit', 'fmt', 'err', 'chars', 'bytes', 'cellptr', 'farg', 'fargs'):
            self.name(p['name']); self.env[p['var']] = P('sym', v=v); return
        raise Unsupported('binding of ' + v.k)
    # ---- control flow
    def x_if(self, e):
        c = e['c']
        if c['k'] == 'let':
            return self.match(self.expr(c['a']), [(c['pat'], None, lambda: self.expr(e['t'])), ({'k': 'wild', 'ty': None}, None, (lambda: self.expr(e['e'])) if 'e' in e else (lambda: UNIT))], e['ty'], c['a']['ty'])
        cv = self.expr(c)
        if cv.s == 'true': return self.expr(e['t'])
        if cv.s == 'false': return self.expr(e['e']) if 'e' in e else UNIT
        k = self.nif; self.nif += 1; self.skel.append('if')
        def br(which, x):
            def f():
                self.hint('%s:%d' % (which, k)); v = self.expr(x) if x else UNIT
                if v.k != 'never': self.hint('%send:%d' % (which, k))
                return v
            return f
        l1, v1 = self.sub(br('then', e['t']))
        l2, v2 = self.sub(br('else', e.get('e')))
        r = self.join(cv.s, l1, v1, l2, v2, e['ty']); self.hint('fi:%d' % k); return r
    def join(self, c, l1, v1, l2, v2, ty):
        if v1.k == 'never' and v2.k == 'never':
            self.emit('if %s {' % c); self.out += l1; self.emit('} else {'); self.out += l2; self.emit('}'); return NEVER
        if (v1.k in ('unit', 'never')) and (v2.k in ('unit', 'never')):
            self.emit('if %s {' % c); self.out += l1
            if l2: self.emit('} else {'); self.out += l2
            self.emit('}'); return UNIT
        # iterators: join only if one side diverges
        if v1.k == 'never': 
            self.emit('if %s {' % c); self.out += l1; self.emit('}'); self.out += l2; return v2
        if v2.k == 'never':
            self.emit('if !(%s) {' % c); self.out += l2; self.emit('}'); self.out += l1; return v1
        if v1.k == 'tup' and v2.k == 'tup' and ty and isinstance(ty, dict) and 'tuple' in ty: pass
        l1m, m1 = self.submat(l1, v1); l2m, m2 = self.submat(l2, v2)
        n = self.tmp()
        self.emit('let %s: %s = if %s {' % (n, vt(ty), c)); self.out += l1m; self.emit(m1 + ' } else {'); self.out += l2m; self.emit(m2 + ' };')
        return self.demat(n, ty)
    def submat(self, l, v):
        o = self.out; self.out = l
        try: m = self.mat(v)
        finally: l, self.out = self.out, o
        return l, m
    def x_match(self, e):
        if e['src'] == 'ForLoopDesugar': return self.forloop(e)
        if e['a']['k'] == 'tuple' and len(e['arms']) == 1:
            v = self.expr(e['a']); self.bindpat(e['arms'][0]['pat'], v); return self.expr(e['arms'][0]['body'])
        if e['src'] == 'TryDesugar': return self.try_(e)
        v = self.expr(e['a'])
        return self.match(v, [(a['pat'], a.get('guard'), (lambda a=a: self.expr(a['body']))) for a in e['arms']], e['ty'], e['a']['ty'])
    def patcond(self, p, v):
        """(condition text or None if irrefutable) — may not emit"""
        k = p['k']
        if k in ('wild', 'bind'): return None
        if k == 'deref': return self.patcond(p['sub'], self.peek(v))
        if k == 'leaf':
            if v.k == 'ref': v = self.peek(v)
            if v.k == 'sc': v = self.demat(v.s, p['ty'])
            cs = [c for c in (self.patcond(s['p'], v.l[s['i']]) for s in p['subs']) if c]
            return ' && '.join(cs) if cs else None
        if k == 'const':
            if v.k == 'ref': v = self.peek(v)
            t = p['ty']
            if t == 'char': return "%s == '\\u{%x}'" % (v.s, int(p['int']))
            if t == 'bool': return v.s if p['int'] == '1' else '!' + par(v.s)
            return '%s == %s%s' % (v.s, p['int'], t)
        if k == 'or': return '(' + ' || '.join('(%s)' % (self.patcond(q, v) or 'true') for q in p['pats']) + ')'
        if k == 'variant':
            if v.k == 'ref': v = self.peek(v)
            a = p['adt'].split('::')[-1]; var = p['variant']
            if a == 'Option' and v.k == 'sopt':
                if var == 'None': return '!(%s)' % v.cond
                sub = p['subs'][0]['p'] if p['subs'] else {'k': 'wild'}
                if sub['k'] in ('wild', 'bind') or (sub['k'] == 'deref' and sub['sub']['k'] in ('wild', 'bind')) or (sub['k'] == 'leaf' and all(s['p']['k'] in ('wild', 'bind') or s['p']['k'] == 'deref' for s in sub['subs'])): return v.cond
                raise Unsupported('refutable pattern inside symbolic option')
            if v.k == 'sc':
                if a == 'Option':
                    if var == 'None': return '%s.is_none()' % par(v.s)
                    sub = p['subs'][0]['p'] if p['subs'] else {'k': 'wild'}
                    c = self.patcond(sub, self.optpay(v, p['ty']))
                    return '%s.is_some()' % par(v.s) + (' && ' + c if c else '')
                if a == 'Result':
                    return '%s.is_%s()' % (par(v.s), var.lower())
                if not p['subs']: return 'is_%s_%s(%s)' % (a, var, v.s) if a in ('Ordering', 'BISign') else self.bad('variant ' + a)
        raise Unsupported('pattern %s on %s' % (k, v.k))
    def optpay(self, v, t):
        pt = t['args'][0] if isinstance(t, dict) and 'args' in t else 'u32'
        tt = v.t[len('Option<'):-1] if v.t.startswith('Option<') else 'u32'
        return self.demat('%s.unwrap()' % par(v.s), pt)
    def peek(self, v):
        if v.k == 'ref':
            if v.p.k in ('val', 'sym'): return v.p.v
            if v.p.k in ('var', 'field', 'lvar', 'rebind'): return self.demat(v.p.s, v.p.t)
            if v.p.k == 'slot': return V('slotval', p=v.p)
        return v
    def bindm(self, p, v):
        k = p['k']
        if k == 'variant':
            if v.k == 'ref': v = self.peek(v)
            if not p['subs']: return
            if v.k == 'sopt': return self.bindpat(p['subs'][0]['p'], v.pay())
            if p['adt'].endswith('Option'):
                return self.bindm(p['subs'][0]['p'], self.optpay(v, p['ty']))
            if p['adt'].endswith('Result'):
                pt = p['ty']['args'][0] if p['variant'] == 'Ok' else p['ty']['args'][1]
                if p['variant'] == 'Err' and isint(pt): return self.bindm(p['subs'][0]['p'], sc(self.lettmp('rerr(%s)' % v.s, pt), pt))
                if p['variant'] == 'Err': return self.bindm(p['subs'][0]['p'], V('err'))
                return self.bindm(p['subs'][0]['p'], self.demat('rok(%s)' % v.s, pt))
            raise Unsupported('variant payload')
        if k in ('const', 'or'): return
        if k == 'deref' and refut(p): return self.bindm(p['sub'], self.peek(v))
        if k == 'leaf' and any(refut(s['p']) for s in p['subs']):
            if v.k == 'ref': v = self.peek(v)
            if v.k == 'sc': v = self.demat(v.s, p['ty'])
            for s in p['subs']: self.bindm(s['p'], v.l[s['i']])
            return
        return self.bindpat(p, v)
    def match(self, v, arms, ty, sty):
        if v.k == 'sc' and not simple(v.s): v = sc(self.lettmp(v.s), v.t)
        elif v.k == 'ref' and v.p.k in ('slot', 'elem'): v = V('ref', p=P('val', v=self.read(v.p)))
        elif v.k == 'tup': v = tup([self.stab(x) for x in v.l])
        if v.k == 'sopt' and not v.done: v = self.stabopt(v)
        def go(k):
            pat, guard, body = arms[k]
            c = self.patcond(pat, v)
            last = k == len(arms) - 1
            if guard is None:
                if c is None or last:
                    self.bindm(pat, v); return body()
            else:
                def g():
                    self.bindm(pat, v); return self.expr(guard)
                l, gv = self.sub(g)
                c = self.lettmp('if %s { %s %s } else { false }' % (c or 'true', ' '.join(l), gv.s), 'bool')
            kk = self.nif; self.nif += 1; self.skel.append('arm')
            def f1():
                self.hint('arm:%d' % kk); self.bindm(pat, v); r = body()
                if r.k != 'never': self.hint('armend:%d' % kk)
                return r
            l1, v1 = self.sub(f1)
            l2, v2 = self.sub(lambda: go(k + 1))
            return self.join(c, l1, v1, l2, v2, ty)
        return go(0)
    def stabopt(self, v): return v
    def try_(self, e):
        # match Try::branch(x) { Continue(v) => v, Break(r) => return from_residual(r) }
        x = e['a']['args'][0]; v = self.expr(x)
        n = self.lettmp(self.mat(v))
        l, _ = self.sub(lambda: self.ret_text('Err(Err { e: 0 })'))
        self.emit('if %s.is_err() {' % n); self.out += l; self.emit('}')
        return self.demat('%s(%s)' % ('rok' if isadt(x['ty'], 'Result') else 'ouw', n), x['ty']['args'][0])
    def x_return(self, e):
        v = self.expr(e['a']) if 'a' in e else UNIT
        if v.k == 'never': return NEVER
        if self.retstack: raise Unsupported('return inside an inlined function')
        self.ret_text(self.mat(v)); return NEVER
    def ret_text(self, t):
        if self.retstack: raise Unsupported('return inside an inlined function')
        if t != '()':
            n = self.lettmp(t); self.rethint(n); self.emit('return %s;' % n)
        else: self.rethint(None); self.emit('return;')
    def rethint(self, n):
        k = self.cnt.get('ret', 0); self.cnt['ret'] = k + 1
        at = self.spec.get('at') or {}
        for key in ('ret:%d' % k, 'ret'):
            if at.get(key): self.emit('proof { %s }' % re.sub(r'\bRES\b', n or '()', self.ht(at[key])))
    def x_break(self, e):
        if 'a' in e:
            v = self.expr(e['a'])
            if v.k != 'unit': raise Unsupported('break with value')
        L = self.labels.get(e['label'])
        if not L: raise Unsupported('break out of a block')
        k = L['k']; self.hint('break:%d' % k)
        self.emit('break%s;' % ('' if self.cur is L else " 'l%d" % k)); L['brk'] = True; return NEVER
    def x_continue(self, e):
        L = self.labels.get(e['label'])
        if not L: raise Unsupported('continue target')
        if L.get('onc'): self.out += L['onc']
        self.emit('continue%s;' % ('' if self.cur is L else " 'l%d" % L['k'])); L['cont'] = True; return NEVER
    cur = None
    def loopspec(self, k, auto_inv=(), auto_dec=None, iswhile=True):
        s = (self.spec.get('loops') or {}).get(k) or {}
        o = []
        T = self.ht
        if s.get('invx'): o.append('invariant_except_break ' + T(s['invx']).rstrip().rstrip(',') + ',')
        inv = [T(s['inv']).rstrip().rstrip(',')] if s.get('inv') else []
        inv += [x for x in auto_inv]
        if inv: o.append('invariant ' + ', '.join(inv) + ',')
        if s.get('ens'): o.append('ensures ' + T(s['ens']).rstrip().rstrip(',') + ',')
        d = s.get('dec') or auto_dec
        if d: o.append('decreases ' + T(d))
        return s, o
    def emit_loop(self, k, head, body_lines, auto_inv=(), auto_dec=None, brk=False):
        s, o = self.loopspec(k, auto_inv, auto_dec)
        if s.get('pre'): self.emit('proof { %s }' % self.ht(s['pre']))
        self.emit("'l%d: %s" % (k, head) if brk else head)
        for x in o: self.emit('  ' + x)
        self.emit('{')
        if not self.spec.get('noheap'): self.emit('let ghost hl%d = h@;' % k)
        for g in s.get('ghost', []): self.emit('let ghost %s;' % self.ht(g))
        if s.get('ls'): self.emit('proof { %s }' % self.ht(s['ls']))
        self.out += body_lines
        self.emit('}')
        if not self.spec.get('noheap'): self.emit('let ghost ha%d = h@;' % k)
        if s.get('post'): self.emit('proof { %s }' % self.ht(s['post']))
    def in_loop(self, k, label, f, lines_only=True, onc=None):
        L = {'k': k, 'brk': False, 'onc': onc}
        oc, ol, last = self.cur, dict(self.labels), self.labels.get('last')
        self.cur = L; self.labels[label] = L; self.labels['last'] = L
        try: l, v = self.sub(f)
        finally: self.cur = oc; self.labels = ol
        return l, v, L
    def le(self, k):
        s = (self.spec.get('loops') or {}).get(k) or {}
        if s.get('le'): self.emit('proof { %s }' % self.ht(s['le']))
    def x_loop(self, e):
        k = self.nloop; self.nloop += 1; self.skel.append('loop')
        s = (self.spec.get('loops') or {}).get(k) or {}
        for g in s.get('gpre', []): self.emit('let ghost %s;' % self.ht(g))
        b = e['body']
        # while c { body }  ==  loop { if c { body } else { break } }
        w = b.get('e') if b['k'] == 'block' and not b['stmts'] else None
        if w and w['k'] == 'if' and w.get('e') and self.is_break(w['e'], e['label']) and w['c']['k'] != 'let':
            def cond(): return self.expr(w['c'])
            lc, cv = self.sub(cond)
            if not lc:
                def body():
                    v = self.expr(w['t'])
                    if v.k != 'never': self.le(k)
                    return v
                l, v, L = self.in_loop(k, e['label'], body)
                self.emit_loop(k, 'while %s' % cv.s, l, brk=self.haslab(l, k)); return UNIT
            def body2():
                l, c2 = self.sub(cond); self.out += l
                self.emit('if !(%s) {' % c2.s); self.hint('break:%d' % k); self.emit('break; }')
                v = self.expr(w['t'])
                if v.k != 'never': self.le(k)
                return v
            l, v, L = self.in_loop(k, e['label'], body2)
            self.emit_loop(k, 'loop', l, brk=self.haslab(l, k)); return UNIT
        def body3():
            v = self.expr(b)
            if v.k != 'never': self.le(k)
            return v
        l, v, L = self.in_loop(k, e['label'], body3)
        self.emit_loop(k, 'loop', l, brk=self.haslab(l, k))
        if e.get('ty') == '!': return NEVER
        return UNIT if L['brk'] or e['label'] is None and any('break' in x for x in l) else NEVER
    def haslab(self, l, k): return any(re.search(r"'l%d;" % k, x) for x in l)
    def is_break(self, e, label):
        if e['k'] == 'block': return (len(e['stmts']) == 1 and 'e' not in e and e['stmts'][0]['k'] == 'expr' and self.is_break(e['stmts'][0]['e'], label)) or (not e['stmts'] and 'e' in e and self.is_break(e['e'], label))
        return e['k'] == 'break' and e['label'] == label and 'a' not in e
    def forloop(self, e):
        it = self.expr(e['a'])            # into_iter(...)
        arm = e['arms'][0]; lp = arm['body']
        inner = lp['body']
        while inner['k'] == 'block': inner = inner['stmts'][0]['e'] if inner['stmts'] else inner['e']
        some = [a for a in inner['arms'] if a['pat']['variant'] == 'Some'][0]
        pat = some['pat']['subs'][0]['p']
        return self.consume(it, lambda x: (self.bindpat(pat, x), self.expr(some['body']))[1], lp['label'])
    def uses_continue(self, f): return False
    def consume(self, it, f, label=None, post=None):
        """counted loop over an iterator; f(value) emits the body"""
        if it.k == 'rngit': return self.consume_rng(it, f, label)
        if it.k != 'it': raise Unsupported('loop over ' + it.k)
        k = self.nloop; self.nloop += 1; self.skel.append('loop')
        s = (self.spec.get('loops') or {}).get(k) or {}
        n = 'n%d' % k; i = 'i%d' % k
        self.emit('let %s: usize = %s;' % (n, it.len)); self.emit('let mut %s: usize = 0;' % i); self.mutn.add(i)
        for g in s.get('gpre', []): self.emit('let ghost %s;' % self.ht(g))
        def body():
            v = f(it.at(i))
            if v.k != 'never': self.le(k); self.emit('%s = %s + 1;' % (i, i))
            return v
        l, v, L = self.in_loop(k, label, body, onc=['%s = %s + 1;' % (i, i)])
        self.emit_loop(k, 'while %s < %s' % (i, n), l, ['0 <= %s <= %s' % (i, n)], '%s - %s' % (n, i), brk=self.haslab(l, k))
        return UNIT
    def consume_rng(self, it, f, label):
        """for x in source.iter_mut().take(n)"""
        if it.n is None: raise Unsupported('loop over a random source')
        k = self.nloop; self.nloop += 1; self.skel.append('loop')
        s = (self.spec.get('loops') or {}).get(k) or {}
        n = 'n%d' % k; i = 'i%d' % k
        self.emit('let %s: usize = %s;' % (n, it.n)); self.emit('let mut %s: usize = 0;' % i); self.mutn.add(i)
        for g in s.get('gpre', []): self.emit('let ghost %s;' % self.ht(g))
        def body():
            o = self.tr.next(self, it); o = self.lettmp(self.mat(o), 'Option<u32>')
            self.emit('if %s.is_none() {' % o); self.hint('break:%d' % k); self.emit('break; }')
            v = f(sc(self.lettmp('%s.unwrap()' % o, 'u32'), 'u32'))
            if v.k != 'never': self.le(k); self.emit('%s = %s + 1;' % (i, i))
            return v
        l, v, L = self.in_loop(k, label, body, onc=['%s = %s + 1;' % (i, i)])
        self.emit_loop(k, 'while %s < %s' % (i, n), l, ['0 <= %s <= %s' % (i, n)], '%s - %s' % (n, i), brk=self.haslab(l, k))
        return UNIT
    # ---- iterators
    def mkit(self, ln, at, **a): return V('it', len=ln, at=at, **a)
    def it_pos(self, it, pos):
        r = self.mkit('(%s - %s)' % (it.len, pos), lambda i: it.at(add(pos, i)))
        r.pos = pos; r.src = it; return r
    def slice_it(self, v):
        """iterator over a u32 slice value"""
        if v.k == 'cell':
            hi = self.lettmp('h.len(%s)' % v.s); c = v.s if self.stable(v.s) else self.lettmp(v.s)
            return self.mkit(hi, lambda i: V('ref', p=P('slot', c=c, i=i)))
        if v.k == 'sl':
            v = self.stab(v)
            return self.mkit(sub(v.hi, v.lo), lambda i: V('ref', p=P('slot', c=v.c, i=add(v.lo, i))))
        if v.k == 'bytes':
            return self.mkit(str(v.n), lambda i: V('ref', p=P('val', v=sc(v.f(i), 'u8'))))
        if v.k == 'sc' and v.t.startswith('Vec<'):
            s = v.s; et = v.t[4:-1]
            ln = self.lettmp('%s.len()' % s)
            def at(i):
                return V('ref', p=P('elem', vs=s, i=i, t=self.rust_t(et)))
            return self.mkit(ln, at)
        if v.k == 'sc' and v.t.startswith('['):
            n = v.t[v.t.rindex(';') + 1:-1].strip()
            et = v.t[1:v.t.rindex(';')]
            return self.mkit(n + 'usize' if n.isdigit() else n, lambda i: V('ref', p=P('elem', vs=v.s, i=i, t=self.rust_t(et))))
        if v.k == 'arr':
            n = self.tmp(); self.emit('let %s: %s = [%s];' % (n, vt(v.t), ', '.join(self.mat(x) for x in v.l)))
            return self.slice_it(sc(n, vt(v.t)))
        raise Unsupported('iterate ' + v.k)
    def rust_t(self, s):
        if s in INTS or s in ('bool', 'char'): return s
        if s == 'M256': return {'adt': 'x::__m256i', 'args': []}
        if s.startswith('Vec<'): return {'adt': 'alloc::vec::Vec', 'args': [self.rust_t(s[4:-1])]}
        if s in STRUCTS: return {'adt': s, 'args': []}
        if s == 'Str': return {'adt': 'alloc::string::String', 'args': []}
        raise Unsupported('element type ' + s)
    def x_closure(self, e): return V('clo', body=e['body'])
    def call_clo(self, c, args):
        b = c.body; ps = b['params'][1:]
        if len(ps) == 1 and len(args) != 1: args = [tup(args)]
        for p, a in zip(ps, args): self.bindpat(p['pat'], a)
        self.retstack.append(1)
        try: return self.expr(b['body'])
        finally: self.retstack.pop()
    def x_adt(self, e):
        a = e['adt'].split('::')[-1]; var = e['variant']
        if a in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
            f = {}
            vals = self.exprs([x['e'] for x in e['fields']])
            for x, v in zip(e['fields'], vals): f[x['name']] = v
            return V('range', lo=f.get('start'), hi=f.get('end'), incl=False)
        if a == 'Nat': return self.expr(e['fields'][0]['e'])
        if a in ('Option',):
            if var == 'None': return sc('None', vt(e['ty']) if self.known(e['ty']) else 'Option<()>')
            v = self.expr(e['fields'][0]['e'])
            if v.k in ('fmt', 'strlit'): return V('fmt')
            return sc('Some(%s)' % self.mat(v), vt(e['ty']))
        if a == 'Result':
            v = self.expr(e['fields'][0]['e'])
            if var == 'Err' and isint(e['ty']['args'][1]): return sc('Result::Err(%s)' % self.mat(v), vt(e['ty']))
            if var == 'Err': return sc('Err(Err { e: 0 })'.replace('Err(Err', 'Result::Err(Err'), vt(e['ty']))
            return sc('Ok(%s)' % self.mat(v), vt(e['ty']))
        if a == 'Ordering': return sc('Ordering::' + var, 'Ordering')
        if a == 'BISign': return sc('BISign::' + var, 'BISign')
        if a == 'AssertKind': return V('fmt')
        if a in STRUCTS or a in GENERIC:
            if a in GENERIC: a = vt(e['ty'])
            vals = self.exprs([x['e'] for x in e['fields']])
            if 'base' in e: raise Unsupported('struct base')
            return sc('%s { %s }' % (a, ', '.join('%s: %s' % (x['name'], self.mat(v)) for x, v in zip(e['fields'], vals))), a)
        if a in ('ParseErrKind', 'NatErrKind', 'RatErrKind', 'RandErrKind', 'RandErrorKind', 'NatError', 'RatError', 'RandError'): return V('fmt')
        raise Unsupported('adt ' + e['adt'])
    def known(self, t):
        try: vt(t); return True
        except Unsupported: return False
    def x_repeat(self, e): raise Unsupported('array repeat')
    # ---- calls
    def x_call(self, e):
        f = e['f']
        if not (isinstance(f, dict) and 'fn' in f): raise Unsupported('indirect call')
        res = f.get('res') or f['fn']; base = f['fn']
        if '{closure#' in res and res not in self.tr.fns:
            c = self.deref_copy(self.expr(e['args'][0])); a = self.expr(e['args'][1])
            return self.call_clo(c, a.l if a.k == 'tup' else [a])
        if f.get('reslocal') and res in self.tr.generic: res = self.tr.instance(res, f['targs'])
        if f.get('reslocal') and res in self.tr.fns: return self.call_local(res, e, f)
        if base in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once'):
            c = self.deref_copy(self.expr(e['args'][0])); a = self.expr(e['args'][1])
            if c.k == 'clo': return self.call_clo(c, a.l if a.k == 'tup' else [a])
        return self.tr.lib(self, base, res, e, f)
    def call_local(self, path, e, f):
        sp = self.tr.specs.get(path)
        vs = self.exprs(e['args'])
        return self.call_with(path, sp, vs, e, f)
    def call_with(self, path, sp, vs, e, f=None):
        if sp is None or sp.get('inline'):
            g = self.tr.fns[path]
            if path in self.inl or len(self.inl) > 12: raise Unsupported('recursive function without a contract: ' + path)
            self.inl.append(path); self.retstack.append(1)
            oe = self.env; self.env = dict(oe)
            try:
                for p, v, pt in zip(g['params'], vs, [p['ty'] for p in g['params']]): self.bind_param_inline(p, v)
                return self.inline_body(g['body'])
            finally: self.inl.pop(); self.retstack.pop(); self.env = oe
        g = self.tr.fns[path]
        name = sp['name']
        if self.z and (sp.get('zname')): name = sp['zname']
        self.calls.add(path)
        args = []
        for p, v in zip(g['params'], vs):
            args.append(self.arg(p['ty'], v, sp))
        muts = [m.group(1) for a in args for m in [re.match(r'&mut (\w+)$', a)] if m]
        for i, a in enumerate(args):   # the argument is evaluated before the mutable borrow starts
            if not a.startswith('&mut') and any(re.search(r'\b%s\b' % m, a) for m in muts):
                args[i] = n = self.tmp(); self.emit('let %s = %s;' % (n, a))
        cn = sp['name']; kk = self.cnt.get(cn, 0); self.cnt[cn] = kk + 1
        at = self.spec.get('at') or {}
        key = '%s:%d' % (cn, kk)
        self.hint('before ' + key)
        self.emit('let ghost hb_%s_%d = h@;' % (cn, kk)) if ('after ' + key) in at else None
        ret = g['ret']
        call = '%s(%s)' % (name, ', '.join((['h'] if not sp.get('noheap') else []) + args))
        unit = (isinstance(ret, dict) and ret.get('tuple') == []) 
        if unit: self.emit(call + ';'); r = UNIT
        elif ret == '!': self.emit(call + ';'); r = NEVER
        else:
            n = '%s_%d' % (cn, kk) if True else self.tmp()
            self.emit('let %s: %s = %s;' % (n, vt(ret), call)); r = self.demat(n, ret)
        self.hint('after ' + key)
        return r
    def inline_body(self, b): return self.expr(self.elim_ret(b))
    def elim_ret(self, e):
        """rewrite `if c { return x } rest` into `if c { x } else { rest }` where return is in tail position of a statement"""
        if not has_return(e): return e
        if e['k'] == 'return': return e['a'] if 'a' in e else {'k': 'tuple', 'a': [], 'ty': {'tuple': []}}
        if e['k'] == 'block':
            st = e['stmts']
            for i, s in enumerate(st):
                if s['k'] == 'expr' and has_return(s['e']):
                    x = s['e']; rest = dict(e, stmts=st[i + 1:])
                    pre = st[:i]
                    if x['k'] == 'return': return dict(e, stmts=pre, e=self.elim_ret(x))
                    if x['k'] == 'if':
                        t, el = x['t'], x.get('e')
                        nt = self.elim_ret(t) if always_returns(t) else self.elim_ret(seq(t, rest))
                        ne = self.elim_ret(rest) if el is None else (self.elim_ret(el) if always_returns(el) else self.elim_ret(seq(el, rest)))
                        return dict(e, stmts=pre, e={'k': 'if', 'c': x['c'], 't': nt, 'e': ne, 'ty': e['ty']})
                    raise Unsupported('return inside ' + x['k'] + ' of an inlined function')
            if 'e' in e: return dict(e, e=self.elim_ret(e['e']))
            return e
        if e['k'] == 'if': return dict(e, t=self.elim_ret(e['t']), **({'e': self.elim_ret(e['e'])} if 'e' in e else {}))
        if e['k'] == 'match': return dict(e, arms=[dict(a, body=self.elim_ret(a['body'])) for a in e['arms']])
        raise Unsupported('return inside ' + e['k'] + ' of an inlined function')
    def bind_param_inline(self, p, v):
        if not p['pat']: return
        pt = p['pat']
        if pt['k'] == 'bind' and v.k in ('sc', 'cell', 'sl', 'ptr') and not pt['mut']:
            self.env[pt['var']] = P('val', v=self.stab(v)); return
        if pt['k'] == 'bind' and v.k == 'ref' and v.p.k in ('var', 'field', 'lvar', 'rebind', 'slot', 'elem', 'val', 'sym'):
            self.env[pt['var']] = P('sym', v=v); return
        self.bindpat(pt, v)
    def arg(self, t, v, sp):
        if isinstance(t, dict) and 'ref' in t and t['mut']:
            u = t['ref']
            if is_cell(u) or (isinstance(u, dict) and 'slice' in u and u['slice'] == 'u32'): return self.mat(v)
            if isinstance(u, dict) and 'param' in u:
                vv = v
                while vv.k == 'ref' and vv.p.k == 'sym': vv = vv.p.v
                if vv.k == 'ref' and vv.p.k == 'var': return vv.p.s.replace('(*', '').replace(')', '')
                return 'rng'
            if v.k != 'ref': raise Unsupported('mutable argument')
            p = v.p
            while p.k == 'sym' and p.v.k == 'ref': p = p.v.p
            if p.k in ('var', 'field', 'lvar', 'rebind'):
                m = re.fullmatch(r'\(\*(\w+)\)', p.s)
                return m.group(1) if m else '&mut ' + p.s
            raise Unsupported('mutable argument place ' + p.k)
        v = self.deref_copy(v)
        if v.k == 'sc' and v.t.startswith('Vec<') : return '&' + par(v.s) if not re.fullmatch(r'\(\*\w+\)', v.s) else v.s[2:-1]
        if v.k == 'bytes' and getattr(v, 'nat', None): return '&' + self.lettmp(v.nat, 'Vec<u8>')
        return self.mat(v)
    # ---- whole function
    def params(self):
        ps = []
        for p in self.fn['params']:
            t = p['ty']; pt = p['pat']
            if pt is None: raise Unsupported('parameter')
            if pt['k'] != 'bind': raise Unsupported('parameter pattern')
            n = self.name(pt['name']); mut = pt['mut']
            if isinstance(t, dict) and 'ref' in t:
                u = t['ref']
                if is_cell(u):
                    ps.append('%s: usize' % n); self.env[pt['var']] = P('sym', v=V('ref', p=P('var', s=n, t=u, frozen=True)))
                elif isinstance(u, dict) and 'slice' in u:
                    if u['slice'] == 'u32': ps.append('%s: Sl' % n); self.env[pt['var']] = P('var', s=n, t=t)
                    else: ps.append('%s: &Vec<%s>' % (n, vt(u['slice']))); self.env[pt['var']] = P('sym', v=V('ref', p=P('lvar', s='(*%s)' % n, t='Vec<%s>' % vt(u['slice']))))
                elif t['mut']:
                    ps.append('%s: &mut %s' % (n, vt(u))); self.env[pt['var']] = P('sym', v=V('ref', p=P('var', s='(*%s)' % n, t=u)))
                elif isadt(u, 'Vec'):
                    ps.append('%s: &%s' % (n, vt(u))); self.env[pt['var']] = P('sym', v=V('ref', p=P('lvar', s='(*%s)' % n, t=vt(u))))
                elif u == 'str': ps.append('%s: Str' % n); self.env[pt['var']] = P('sym', v=V('ref', p=P('var', s=n, t='str')))
                else:
                    ps.append('%s: %s' % (n, vt(u))); self.env[pt['var']] = P('sym', v=V('ref', p=P('var', s=n, t=u)))
            else:
                if mut:
                    ps.append('%s_p: %s' % (n, vt(t))); self.mutn.add(n); self.decl.append('let mut %s: %s = %s_p;' % (n, vt(t), n))
                elif isadt(t, 'Vec') and not is_cell(t): ps.append('%s: &%s' % (n, vt(t)))
                else: ps.append('%s: %s' % (n, vt(t)))
                if isadt(t, 'Vec') and not is_cell(t) and not mut: self.env[pt['var']] = P('lvar', s='(*%s)' % n, t=vt(t))
                else: self.env[pt['var']] = P('var', s=n, t=t)
        return ps
    def run(self, names=None):
        self.names = names
        sp = self.spec
        ps = self.params(); self.pnames = [re.sub(r':.*', '', x) for x in ps]
        lines, v = self.sub(lambda: self.body())
        ret = self.fn['ret']
        unit = isinstance(ret, dict) and ret.get('tuple') == []
        hp = [] if sp.get('noheap') else ['h: &Heap' if sp.get('pure') else 'h: &mut Heap']
        nm = sp['zname'] if self.z else sp['name']
        sig = 'pub fn %s(%s)%s' % (nm, ', '.join(hp + ps), '' if unit else ' -> (r: %s)' % vt(ret))
        return sig, self.decl + lines
    def body(self):
        sp = self.spec
        for g in sp.get('ghost', []): self.emit('let ghost %s;' % self.ht(g))
        self.hint('start')
        v = self.expr(self.fn['body'])
        if v.k == 'never': return v
        ret = self.fn['ret']
        unit = isinstance(ret, dict) and ret.get('tuple') == []
        if unit: self.rethint(None)
        else:
            n = self.lettmp(self.mat(v), vt(ret)); self.rethint(n); self.emit(n)
        return v

def refut(p):
    while p['k'] == 'deref': p = p['sub']
    return p['k'] in ('variant', 'const', 'or') or (p['k'] == 'leaf' and any(refut(s['p']) for s in p['subs']))
def has_return(e):
    if isinstance(e, dict):
        if e.get('k') == 'return': return True
        if e.get('k') == 'closure': return False
        return any(has_return(v) for k, v in e.items() if k not in ('ty', 'f', 'pat'))
    if isinstance(e, list): return any(has_return(x) for x in e)
    return False
def always_returns(e):
    if e['k'] == 'return': return True
    if e['k'] == 'block':
        return any(s['k'] == 'expr' and always_returns(s['e']) for s in e['stmts']) or ('e' in e and always_returns(e['e']))
    if e['k'] == 'if': return 'e' in e and always_returns(e['t']) and always_returns(e['e'])
    if e['k'] == 'match': return all(always_returns(a['body']) for a in e['arms'])
    return False
def seq(a, rest):
    st = [{'k': 'expr', 'e': a}] if a['k'] != 'block' else a['stmts'] + ([{'k': 'expr', 'e': a['e']}] if 'e' in a else [])
    return dict(rest, stmts=st + rest['stmts'])
