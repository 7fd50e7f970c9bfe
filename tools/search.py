"""Concrete search against the real crate: boundary-heavy, seeded inputs run through the driver binary and
compared with Python integer arithmetic.  Used (1) to look for a failing input when a proof obligation fails,
(2) as the labelled bounded stand-in for functions whose contract is not discharged."""
import os, re, random, subprocess, sys, math, struct, json, time, shutil
from fractions import Fraction
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
M32 = 0xffffffff

# ---------------------------------------------------------------- literals of the current source
def literals():
    s = set()
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs') and 'test' not in f:
                t = open(os.path.join(d, f), errors='replace').read()
                t = re.sub(r'//[^\n]*', '', t)
                for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?![\w.])', t):
                    try: s.add(int(m.group(1).replace('_', ''), 0))
                    except ValueError:
                        try: s.add(int(m.group(1).replace('_', '')))
                        except ValueError: pass
    return s
def lit_sets():
    cur = literals()
    try: base = set(json.load(open(os.path.join(V, 'tools', 'base_literals.json'))))
    except Exception: base = set()
    return sorted(cur), sorted(cur - base)

# ---------------------------------------------------------------- tokens
def tn(x):
    if x is None: return 'nan'
    l = []
    while True:
        l.append('%x' % (x & M32)); x >>= 32
        if not x: break
    return ','.join(l)
def ti(x):
    if x is None: return 'nan'
    return ('-' if x < 0 else '') + tn(abs(x))
def tr(x):
    if x is None: return 'nan'
    return ti(x.numerator) + '/' + ti(x.denominator)
def pn(s):  # value, canonical
    if s == 'nan': return None, True
    l = [int(t, 16) for t in s.split(',')]
    v = 0
    for k, t in enumerate(l): v |= t << (32 * k)
    return v, len(l) == 1 or l[-1] != 0
def pi(s):
    neg = s.startswith('-')
    v, c = pn(s[1:] if neg else s)
    if v is None: return None, not neg
    return (-v if neg else v), c and not (neg and v == 0)
def pr(s):
    if s == 'nan': return None, True
    a, b = s.split('/'); (a, c), (b, d) = pi(a), pi(b)
    if a is None or b is None or b == 0: return ('bad', s), False
    f = Fraction(a, b)
    return f, c and d and f.numerator == a and f.denominator == b

# ---------------------------------------------------------------- generators
class G:
    def __init__(self, seed, scale=1.0):
        self.r = random.Random(seed); self.scale = scale
        self.lits, self.newlits = lit_sets()
        self.nl32 = [x & M32 for x in self.newlits] + [(x >> 32) & M32 for x in self.newlits if x >> 32]
        self.l32 = [x & M32 for x in self.lits if x <= (1 << 64)]
    def limb(self):
        r = self.r; k = r.randrange(14)
        if self.nl32 and r.random() < 0.12: return (r.choice(self.nl32) + r.choice((-1, 0, 0, 0, 1))) & M32
        if k < 3: return 0
        if k < 5: return M32
        if k == 5: return 1
        if k == 6: return 0x80000000
        if k == 7: return (1 << r.randrange(32)) - r.randrange(2)
        if k == 8: return M32 - (1 << r.randrange(32))
        if k == 9 and self.l32: return r.choice(self.l32)
        if k == 10: return r.randrange(1, 20)
        return r.getrandbits(32)
    def size(self, big=None):
        r = self.r
        if self.newlits and r.random() < 0.1:
            c = [x for x in self.newlits if 0 < x <= 300]
            if c: return max(1, r.choice(c) + r.randrange(-1, 2))
        if big and r.random() < big: return r.choice((17, 18, 19, 20, 21, 22, 30, 39, 40, 41, 42, 50, 60, 63, 64, 65, 79, 80, 81, 82, 83, 90, 100))
        return r.choice((1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 11, 13))
    def nat(self, n=None, big=None):
        r = self.r
        if n is None: n = self.size(big)
        k = r.randrange(10)
        if k == 0: return max(0, (1 << (32 * n - r.randrange(33))) - r.choice((0, 1, 2)))
        if k == 1: return (1 << r.randrange(32 * n))
        if k == 2: return r.getrandbits(32 * n)
        if k == 3: return r.getrandbits(r.randrange(1, 32 * n + 1))
        if k == 4 and n == 1: return r.choice((0, 1, 2, 3, M32))
        if k == 5 and self.newlits:
            v = r.choice(self.newlits)
            if v < (1 << 4000): return max(0, v + r.choice((-1, 0, 0, 1)))
        v = 0
        for _ in range(n): v = (v << 32) | self.limb()
        return v
    def natnz(self, **k):
        while True:
            v = self.nat(**k)
            if v: return v
    def int(self, **k):
        v = self.nat(**k)
        return -v if self.r.random() < 0.5 else v
    def intnz(self, **k):
        while True:
            v = self.int(**k)
            if v: return v
    def pair(self, big=None):
        r = self.r; a = self.nat(big=big); k = r.randrange(14)
        if k == 0: b = a
        elif k == 1: b = max(0, a + r.choice((-2, -1, 1, 2)))
        elif k == 2: b = a ^ (1 << r.randrange(max(1, a.bit_length() + 2)))
        elif k == 3: b = (((1 << a.bit_length()) - 1) ^ a) + r.randrange(2)
        elif k == 4: b = a & self.nat()
        elif k == 5: b = a >> r.randrange(a.bit_length() + 1)
        elif k == 6: b = self.nat(n=max(1, (a.bit_length() + 31) // 32))
        elif k == 10: b = r.choice((1, 1, 2, 3, 4, 10, M32, M32 + 1, M32 + 2, (1 << 64) - 1))
        elif k == 11: t = r.randrange(a.bit_length() + 1); b = (a >> t << t) + r.getrandbits(t + 1) // 2  # common leading bits
        elif k == 12: t = r.randrange(a.bit_length() + 1); b = (a & ((1 << t) - 1)) | (self.nat() << t)  # common low bits
        elif k == 13: b = a * self.nat(n=1) + r.choice((-1, 0, 0, 1)); b = max(0, b)  # a multiple
        else: b = self.nat(big=big)
        if r.random() < 0.5: a, b = b, a
        return a, b
    def sgn(self, v): return -v if self.r.random() < 0.5 else v
    def rat(self):
        r = self.r
        if r.random() < 0.3: return Fraction(r.randrange(-12, 13), r.randrange(1, 13))
        return Fraction(self.int(n=r.randrange(1, 4)), self.natnz(n=r.randrange(1, 4)))
    def cnt(self, n): return max(10, int(n * self.scale))
    def shift(self, a=0):
        r = self.r; k = r.randrange(8)
        if self.newlits and r.random() < 0.15:
            c = [x for x in self.newlits if 0 <= x <= 5000]
            if c: return max(0, r.choice(c) + r.randrange(-1, 2))
        if k == 0: return r.choice((0, 1, 31, 32, 33, 63, 64, 65, 96))
        if k == 1: return 32 * r.randrange(12)
        if k == 2: return max(0, a.bit_length() + r.choice((-33, -32, -31, -1, 0, 1, 31, 32, 33)))
        return r.randrange(420)

# ---------------------------------------------------------------- cases: (command, check(out_tokens) -> None | message)
def case(cmd, chk): return (cmd, chk)
def show(x): return 'nan' if x is None else (str(x) if not isinstance(x, int) else hex(x))
def nopanic(o): return 'panicked: ' + ' '.join(o[1:]) if o and o[0] == 'PANIC' else None
def wantv(parse, want):
    def c(o):
        p = nopanic(o)
        if p: return p
        v, k = parse(o[0])
        # a number in another form compares unequal to the expected one
        return ('got %s, expected %s' % (show(v), show(want))) if v != want else None if k else 'result %s is not in canonical form: it compares unequal to %s' % (o[0], show(want))
    return c
def wantc(parse, want):  # the value and nothing but its canonical form
    f = wantv(parse, want)
    return lambda o: f(o) or (None if parse(o[0])[1] else 'result %s is not canonical' % o[0])
def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q
def trem(a, b):
    m = abs(a) % abs(b)
    return -m if a < 0 else m
def notn(a): return ((1 << max(1, a.bit_length())) - 1) ^ a
NB = {'add': lambda a, b: a + b, 'sub': lambda a, b: abs(a - b), 'mul': lambda a, b: a * b, 'div': lambda a, b: a // b, 'rem': lambda a, b: a % b,
      'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'andnot': lambda a, b: a & ~b}
IB = dict(NB, sub=lambda a, b: a - b, div=tdiv, rem=trem)
def ed(a, b):
    r = a % abs(b); return (a - r) // b
def binop(kind, op, mode, a, b, f):
    """case whose checker compares the value only"""
    t, p = (tn, pn) if kind == 'nat2' else (ti, pi) if kind == 'big2' else (tr, pr)
    if mode in 'st': want = f(a, a)
    elif mode == 'm': want = f(f(a, b), b)
    else: want = f(a, b)
    return case('%s %s %s %s %s' % (kind, op, mode, t(a), t(b)), wantv(p, want))
def modes(g): return g.r.choice('vvasm t'.replace(' ', ''))
def mode_for(g, op, a, b, f):
    m = modes(g)
    if op in ('div', 'rem'):
        if m in 'st' and a == 0: m = 'v'
    return m

def C01(g):
    for _ in range(g.cnt(3500)):
        a, b = g.pair(big=.05); op = g.r.choice(('add', 'sub')); yield binop('nat2', op, modes(g), a, b, NB[op])
        a, b = g.pair(big=.05); a, b = g.sgn(a), g.sgn(b); op = g.r.choice(('add', 'sub')); yield binop('big2', op, modes(g), a, b, IB[op])
    for _ in range(g.cnt(2500)):
        a = g.nat(); u = g.limb(); op = g.r.choice(('add', 'sub')); yield case('natu %s %s %s %d' % (op, g.r.choice('va'), tn(a), u), wantv(pn, NB[op](a, u)))
        a, b = g.pair(); m = g.r.choice('vast'); bb = a if m in 'st' else b
        yield case('sws %s %s %s' % (m, tn(a), tn(b)), lambda o, a=a, b=bb: nopanic(o) or (None if pn(o[0])[0] == abs(a - b) and o[1] == str(a >= b).lower() else 'got %s' % o[:2]))
        x = g.int(); yield case('big1 neg %s' % ti(x), wantv(pi, -x))
        yield case('big1 abs %s' % ti(x), wantv(pi, abs(x)))
def C02(g):
    big = (258, 259, 260, 261, 262, 300, 519, 520, 521, 522, 530)
    for _ in range(g.cnt(1200)):
        a, b = g.pair(big=.3); yield binop('nat2', 'mul', modes(g), a, b, NB['mul'])
        a, b = g.pair(big=.15); a, b = g.sgn(a), g.sgn(b); yield binop('big2', 'mul', modes(g), a, b, IB['mul'])
        a = g.nat(big=.1); u = g.limb(); yield case('natu mul %s %s %d' % (g.r.choice('va'), tn(a), u), wantv(pn, a * u))
        a, b = g.nat(big=.7), g.nat(big=.7); yield case('nmulk %s %s' % (tn(a), tn(b)), wantv(pn, a * b))
        a = g.nat(big=.7); yield case('nat1 sqr %s' % tn(a), wantv(pn, a * a))
        a = g.int(big=.4); yield case('big1 sqr %s' % ti(a), wantv(pi, a * a))
    for n in (1, 2, 3, 19, 20, 21, 39, 40, 41, 79, 80, 81, 159, 160, 161):
        for m in (1, 2, 20, 40, 41, 80, 100):
            a, b = g.nat(n=n), g.nat(n=m); yield case('nmulk %s %s' % (tn(a), tn(b)), wantv(pn, a * b))
            a, b = (1 << 32 * n) - 1, (1 << 32 * m) - 1; yield case('nmulk %s %s' % (tn(a), tn(b)), wantv(pn, a * b)); yield binop('nat2', 'mul', 'v', a, b, NB['mul'])
    for _ in range(g.cnt(40)):
        n = g.r.choice(big); a = g.nat(n=n); yield case('nat1 sqr %s' % tn(a), wantv(pn, a * a))
        b = g.nat(n=g.r.choice(big)); yield case('nmulk %s %s' % (tn(a), tn(b)), wantv(pn, a * b))
    for n in (255, 256, 259, 260, 261, 300, 519, 520, 521):
        a = (1 << 32 * n) - 1; yield case('nat1 sqr %s' % tn(a), wantv(pn, a * a))
    # products x*y with special halves (Karatsuba signs and zero halves)
    for _ in range(g.cnt(150)):
        n = g.r.choice((40, 42, 44, 48, 80, 96, 160)); h = n // 2
        def sp():
            lo, hi = g.r.choice((0, (1 << 32 * h) - 1, g.nat(n=h), g.r.getrandbits(32 * h))), g.r.choice(((1 << 32 * h) - 1, g.nat(n=h), g.r.getrandbits(32 * h), 1 << (32 * h - 1)))
            return lo | (hi << 32 * h)
        a, b = sp(), sp(); yield case('nmulk %s %s' % (tn(a), tn(b)), wantv(pn, a * b))
def C03(g):
    for _ in range(g.cnt(2500)):
        op = g.r.choice(('div', 'rem'))
        b = g.natnz(); a = g.r.choice((lambda: g.nat(), lambda: b * g.nat(n=g.r.randrange(1, 4)) + g.r.randrange(-1, 2), lambda: b * g.nat(n=1) + g.r.randrange(b), lambda: b + g.r.randrange(-1, 2), lambda: (b << g.r.randrange(200)) - g.r.randrange(2)))()
        a = max(0, a); m = mode_for(g, op, a, b, None)
        if m == 'm': m = 'a'
        yield binop('nat2', op, m, a, b, NB[op])
        a, b = g.sgn(a), g.sgn(b); m = mode_for(g, op, a, b, None)
        if m == 'm': m = 'v'
        yield binop('big2', op, m, a, b, IB[op])
        m = g.r.choice('vast'); f = ed if op == 'div' else (lambda a, b: a % abs(b))
        if m in 'st' and a == 0: m = 'v'
        yield case('euclid %s %s %s %s' % (op, m, ti(a), ti(b)), wantv(pi, f(a, a) if m in 'st' else f(a, b)))
        a = g.nat(); u = g.limb() or 1; yield case('natu %s %s %s %d' % (op, g.r.choice('va'), tn(a), u), wantv(pn, NB[op](a, u)))
    for a in (0, 1, 2, M32, M32 + 1, M32 + 2, (1 << 64) - 1, 1 << 64, (1 << 96) + 5, 3 << 100, (1 << 160) - 1, 0x123456789abcdef0123456789abcdef01234567, 1 << 700):
        for b in (1, 2, 3, 10, M32, M32 + 1, M32 + 2, (1 << 64) - 1, 1 << 64, (1 << 96) + 5):
            for op in ('div', 'rem'):
                yield binop('nat2', op, 'v', a, b, NB[op])
                for x, y in ((a, b), (-a, b), (a, -b), (-a, -b)):
                    yield binop('big2', op, 'v', x, y, IB[op])
                    for m in 'va': yield case('euclid %s %s %s %s' % (op, m, ti(x), ti(y)), wantv(pi, (ed if op == 'div' else (lambda a, b: a % abs(b)))(x, y)))
    pan = lambda o: None if o[0] == 'PANIC' else 'division by zero did not panic: %s' % o
    for _ in range(30):
        a = g.nat()
        for op in ('div', 'rem'):
            yield case('nat2 %s v %s 0' % (op, tn(a)), pan); yield case('big2 %s v %s 0' % (op, ti(g.sgn(a))), pan); yield case('natu %s v %s 0' % (op, tn(a)), pan); yield case('euclid %s v %s 0' % (op, ti(a)), pan)
            yield case('nat2 %s a %s 0' % (op, tn(a)), pan)
def C04(g):
    for _ in range(g.cnt(4000)):
        a = g.nat(); s = g.shift(a); op = g.r.choice(('shl', 'shr')); f = (lambda x: x << s) if op == 'shl' else (lambda x: x >> s)
        yield case('nats %s %s %s %d' % (op, g.r.choice('va'), tn(a), s), wantv(pn, f(a)))
        b = -a if g.r.random() < .7 else a
        yield case('bigs %s %s %s %d' % (op, g.r.choice('va'), ti(b), s), wantv(pi, f(b)))
    for s in list(range(70)) + [95, 96, 97, 127, 128, 129, 1000, 1023, 1024, 100000]:
        for a in (0, 1, 2, M32, 1 << 32, (1 << 64) - 1, 0x123456789abcdef0123, (1 << 96) + 1, (1 << 95)):
            yield case('nats shl v %s %d' % (tn(a), s), wantv(pn, a << s)); yield case('nats shr v %s %d' % (tn(a), s), wantv(pn, a >> s)); yield case('bigs shr a %s %d' % (ti(-a), s), wantv(pi, (-a) >> s)); yield case('bigs shl a %s %d' % (ti(-a), s), wantv(pi, (-a) << s))
    for s in ((1 << 32), (1 << 40) + 5, (1 << 63), (1 << 64) - 1):
        a = g.nat(); yield case('nats shr v %s %d' % (tn(a), s), wantv(pn, 0)); yield case('bigs shr v %s %d' % (ti(-a), s), wantv(pi, -1 if a else 0))
def C05(g):
    for _ in range(g.cnt(3000)):
        op = g.r.choice(('and', 'or', 'xor', 'andnot'))
        a, b = g.pair(); yield binop('nat2', op, modes(g), a, b, NB[op])
        a, b = g.pair(); a, b = g.sgn(a), g.sgn(b); yield binop('big2', op, modes(g), a, b, IB[op])
        a, b = g.pair(); a, b = g.sgn(a), g.sgn(b); yield binop('big2', op, modes(g), a, b, IB[op])
        a = g.nat(); yield case('nat1 not %s' % tn(a), wantv(pn, notn(a))); a = g.int(); yield case('big1 not %s' % ti(a), wantv(pi, ~a))
    sm = list(range(-5, 6)) + [1 << 32, -(1 << 32), (1 << 32) - 1, -(1 << 32) + 1, 1 << 64, -(1 << 64), -(1 << 32) - 1]
    for a in sm:
        for b in sm:
            for op in ('and', 'or', 'xor', 'andnot'): yield binop('big2', op, 'v', a, b, IB[op]); yield binop('big2', op, 'a', a, b, IB[op])
def canon(parse, idx=0):
    def c(o):
        p = nopanic(o)
        if p: return p
        v, k = parse(o[idx])
        return None if k else 'result %s is not canonical' % o[idx]
    return c
def cmpline(a, b):
    if a is None or b is None: w = 'none false true false false false false'
    else: w = ' '.join([('lt' if a < b else 'gt' if a > b else 'eq')] + [str(x).lower() for x in (a == b, a != b, a < b, a <= b, a > b, a >= b)])
    return lambda o: None if ' '.join(o) == w else 'got %s, expected %s' % (' '.join(o), w)
def C06(g):
    for _ in range(g.cnt(1500)):
        a, b = g.pair(big=.03); op = g.r.choice(list(NB)); m = modes(g)
        if op in ('div', 'rem'): b = b or 1; a = a or 1; m = 'v' if m == 'm' else m
        yield case('nat2 %s %s %s %s' % (op, m, tn(a), tn(b)), canon(pn))
        a, b = g.sgn(a), g.sgn(b); op = g.r.choice(list(IB)); m = modes(g)
        if op in ('div', 'rem'): b = b or 1; a = a or 1; m = 'v' if m == 'm' else m
        yield case('big2 %s %s %s %s' % (op, m, ti(a), ti(b)), canon(pi))
        a = g.nat(); s = g.shift(a); yield case('nats %s %s %s %d' % (g.r.choice(('shl', 'shr')), g.r.choice('va'), tn(a), s), canon(pn)); yield case('bigs %s %s %s %d' % (g.r.choice(('shl', 'shr')), g.r.choice('va'), ti(g.sgn(a)), s), canon(pi))
        u = g.limb(); op = g.r.choice(('add', 'sub', 'mul', 'div', 'rem')); u = u or 1 if op in ('div', 'rem') else u; yield case('natu %s %s %s %d' % (op, g.r.choice('va'), tn(g.nat()), u), canon(pn))
        yield case('nat1 %s %s' % (g.r.choice(('not', 'sqr', 'deep')), tn(g.nat(big=.1))), canon(pn)); yield case('big1 %s %s' % (g.r.choice(('not', 'neg', 'sqr', 'abs', 'deep')), ti(g.int(big=.1))), canon(pi))
        op = g.r.choice(('div', 'rem')); yield case('euclid %s %s %s %s' % (op, g.r.choice('va'), ti(g.int()), ti(g.intnz())), canon(pi))
        a, b = g.pair(); yield case('sws %s %s %s' % (g.r.choice('vast'), tn(a), tn(b)), canon(pn))
        a, b = g.pair(); yield case('ncmp %s %s' % (tn(a), tn(b)), cmpline(a, b)); a, b = g.sgn(a), g.sgn(b); yield case('icmp %s %s' % (ti(a), ti(b)), cmpline(a, b))
        ty, bits = g.r.choice((('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128), ('usize', 64))); a = g.nat(n=g.r.randrange(1, 6)); b = g.r.choice((a, a + 1, a - 1, g.nat(n=4), 0, (1 << bits) - 1)) & ((1 << bits) - 1)
        yield case('ncmpp %s %s %d' % (ty, tn(a), b), cmpline(a, b)); yield case('icmpp %s %d' % (ti(g.sgn(b)), 0), lambda o: None) if 0 else case('icmpp %s %d' % (ti(b), b & M32), lambda o, e=(b == b & M32): None if o == [str(e).lower(), str(not e).lower()] else 'got %s' % o)
    for _ in range(g.cnt(400)):
        a, b = g.pair(); k = g.shift(a)
        def c(o, a=a):
            p = nopanic(o)
            if p: return p
            for x in o:
                f, v = x.split(':')
                if f != 'true' or pn(v) != (a, True): return 'two computations of the same number differ: %s' % o
        yield case('ncmp2 %s %s %d' % (tn(a), tn(b), k), c)
        x, y, m = g.nat(), g.nat(n=1), g.natnz(n=g.r.randrange(1, 4)); yield case('nexp v %s %s %s' % (tn(x), tn(y), tn(m)), canon(pn)); yield case('npowmod v %s %s %s' % (tn(x), tn(y), tn(m)), canon(pn))
        yield case('nat1 sqrt %s' % tn(g.nat(n=g.r.randrange(1, 5))), canon(pn)); yield case('nmulk %s %s' % (tn(g.nat(big=.3)), tn(g.nat(big=.3))), canon(pn))
        x = g.nat(); yield case('npow v %s %s' % (tn(g.nat(n=1)), tn(g.r.randrange(20))), canon(pn))
        a, b = g.int(), g.int()
        yield case('gcd v %s %s' % (ti(a), ti(b)), lambda o: nopanic(o) or next((canon(pi, k)(o) for k in range(3) if canon(pi, k)(o)), None))
        yield case('fromw nv %s' % ','.join('%x' % g.limb() for _ in range(g.r.randrange(1, 8))), canon(pn))
        yield case('fromb %s %s' % (g.r.choice(('nle', 'nbe', 'ns', 'nv', 'nr')), bytes(g.r.choice((0, 0, 255, g.r.randrange(256))) for _ in range(g.r.randrange(1, 20))).hex()), canon(pn))
        yield case('fromb %s %s' % (g.r.choice(('ile', 'ibe', 'is', 'iv', 'ir')), bytes(g.r.choice((0, 0, 255, g.r.randrange(256))) for _ in range(g.r.randrange(1, 20))).hex()), canon(pi))
        t = (g.r.choice(('', '+')) + g.r.choice(('0x%x', '0b{:b}', '0o%o', '%d')))
        v = g.nat(n=g.r.randrange(1, 4)); t = t.format(v) if '{' in t else t % v; t = t[:2] + '0' * g.r.randrange(0, 20) + t[2:] if t.startswith('0') and len(t) > 1 else t
        yield case('parse n %s' % t.encode().hex(), canon(pn))
        yield case('parse i %s' % (('-' + t) if not t.startswith('+') else t).encode().hex(), canon(pi))
        b = g.r.choice((1, 1, 2, 3, 5, 1 << 32, g.natnz(n=g.r.randrange(1, 4)), 1 << g.r.randrange(100))); w = ','.join(g.r.choice(('e', '0', '0', '%x' % g.limb())) for _ in range(g.r.randrange(0, 8))) or '-'
        yield case('nrandom %s %s' % (tn(b), w), canon(pn))
        for z in (b, -b): yield case('irandom %s %s' % (ti(z), w), canon(pi))
        x, y, m = g.int(), g.int(n=1), g.intnz(n=g.r.randrange(1, 3))
        if y < 0: y = -y
        yield case('iexp v %s %s %s' % (ti(x), ti(y), ti(abs(m))), canon(pi))
        m = abs(m) + 1; yield case('modinv %s %s' % (ti(g.int()), ti(m)), canon(pi)); a = g.r.randrange(-40, 40); b = g.r.randrange(-40, 40); yield case('lincong %s %s %s' % (ti(a), ti(b), ti(g.r.randrange(1, 60))), lambda o: nopanic(o) or (None if o[0] == 'none' else next(('result %s is not canonical' % z for z in o[0][1:-1].split(';') if z and pi(z)[1] is False), None)))
        p = g.r.choice(PR); a = g.r.choice((0, p, -p, -1, 1, 4, g.r.randrange(p) ** 2, g.int(n=2))); yield case('modsqrt %s %s' % (ti(a), ti(p)), lambda o: None if o[0] == 'none' else canon(pi)(o))
        a = g.r.randrange(-30, 30); yield case('mulrange %d %d' % (a, a + g.r.randrange(-3, 12)), canon(pi)); n = g.r.randrange(0, 60); yield case('binom %d %d' % (n, g.r.randrange(0, n + 1)), canon(pi))
        t, bits = g.r.choice((('i8', 8), ('i16', 16), ('i32', 32), ('i64', 64), ('i128', 128))); v = g.r.choice((0, -1, -(1 << bits - 1), (1 << bits - 1) - 1, g.sgn(g.r.getrandbits(g.r.randrange(bits))))); yield case('fromp i %s %d' % (t, v), canon(pi))
        t, bits = g.r.choice((('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128))); yield case('fromp n %s %d' % (t, g.r.choice((0, 1, g.r.getrandbits(g.r.randrange(1, bits + 1)), (1 << bits) - 1))), canon(pn))
        yield case('fromw i%s %s' % (g.r.choice('vrs'), ','.join('%x' % g.r.choice((0, 0, g.limb())) for _ in range(g.r.randrange(1, 8)))), canon(pi))
def isnan(o): return nopanic(o) or (None if o[0] == 'nan' else 'NaN operand gave %s' % o[0])
def C07(g):
    for _ in range(g.cnt(60)):
        a = g.nat(); x = g.int(); q = g.rat()
        for op in NB:
            for m in 'va':
                for p, z in ((a, None), (None, a), (None, None)):
                    if op in ('div', 'rem') and z == 0: continue
                    yield case('nat2 %s %s %s %s' % (op, m, tn(p), tn(z)), isnan)
                for p, z in ((x, None), (None, x), (None, None)):
                    if op in ('div', 'rem') and z == 0: continue
                    yield case('big2 %s %s %s %s' % (op, m, ti(p), ti(z)), isnan)
            for m in 'st': yield case('nat2 %s %s nan nan' % (op, m), isnan); yield case('big2 %s %s nan nan' % (op, m), isnan)
        for op in ('add', 'sub', 'mul', 'div', 'rem'):
            for m in 'va': yield case('natu %s %s nan %d' % (op, m, g.limb() or 1), isnan)
        for op in ('add', 'sub', 'mul', 'div'):
            for m in 'va':
                yield case('rat2 %s %s nan %s' % (op, m, tr(q if q else Fraction(1))), isnan); yield case('rat2 %s %s %s nan' % (op, m, tr(q)), isnan); yield case('rat2 %s %s nan nan' % (op, m), isnan)
        for op in ('shl', 'shr'):
            for m in 'va': yield case('nats %s %s nan %d' % (op, m, g.shift()), isnan); yield case('bigs %s %s nan %d' % (op, m, g.shift()), isnan)
        for op in ('not', 'sqr', 'sqrt', 'deep'): yield case('nat1 %s nan' % op, isnan); yield case('big1 %s nan' % op, isnan)
        for op in ('neg', 'abs'): yield case('big1 %s nan' % op, isnan); yield case('rat1 %s nan' % op, isnan)
        yield case('rat1 inv nan', isnan)
        for op in ('div', 'rem'):
            for m in 'va': yield case('euclid %s %s nan %s' % (op, m, ti(x or 1)), isnan); yield case('euclid %s %s %s nan' % (op, m, ti(x)), isnan)
        for m in 'vast': yield case('sws %s nan %s' % (m, tn(a)), isnan)
        for m in 'va': yield case('sws %s %s nan' % (m, tn(a)), isnan)
        yield case('npow v nan %s' % tn(a), isnan); yield case('npow v %s nan' % tn(a), isnan)
        for k in range(3):
            t = [tn(g.nat(n=1)), tn(g.nat(n=1)), tn(g.nat(n=1))]; t[k] = 'nan'
            for c in ('nexp', 'npowmod', 'iexp'): yield case('%s v %s' % (c, ' '.join(t)), isnan)
        yield case('nmulk nan %s' % tn(a), isnan); yield case('nmulk %s nan' % tn(a), isnan)
        yield case('gcd v nan %s' % ti(x), isnan); yield case('gcd v %s nan' % ti(x), isnan); yield case('modinv nan %s' % ti(x), isnan); yield case('modinv %s nan' % ti(x), isnan)
        for p, z in ((a, None), (None, a), (None, None)): yield case('ncmp %s %s' % (tn(p), tn(z)), cmpline(p, z))
        for p, z in ((x, None), (None, x), (None, None)): yield case('icmp %s %s' % (ti(p), ti(z)), cmpline(p, z))
        for p, z in ((q, None), (None, q), (None, None)): yield case('rcmp %s %s' % (tr(p), tr(z)), cmpline(p, z))
        for ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'): yield case('ncmpp %s nan %d' % (ty, g.r.randrange(256)), cmpline(None, 1))
        yield case('ratb nan %s' % ti(x), isnan); yield case('ratb %s nan' % ti(x), isnan)
        yield case('icmpp nan 0', lambda o: None if o == ['false', 'true'] else 'NaN == 0: %s' % o)
def same(idx, toks):
    """tokens at idx.. equal the given operand tokens ('-' skips)"""
    def c(o):
        p = nopanic(o)
        if p: return p
        got = o[idx:idx + len(toks)]
        for k, (x, y) in enumerate(zip(got, toks)):
            if y != '-' and x != y: return 'operand %d changed from %s to %s' % (k, y, x)
        return None if len(got) == len(toks) else 'short output %s' % o
    return c
def both(c1, c2): return lambda o: c1(o) or c2(o)
def C08(g):
    for _ in range(g.cnt(1500)):
        a, b = g.pair(big=.03); op = g.r.choice(list(NB)); m = modes(g)
        if op in ('div', 'rem'): b = b or 1; a = a or 1; m = 'v' if m == 'm' else m
        A, B = tn(a), tn(b); want = ['-', B, A, B] if m in 'at' else [A, B, A, B]
        f = NB[op]; w = f(a, a) if m in 'st' else f(f(a, b), b) if m == 'm' else f(a, b)
        if m == 't': want[1] = '-'
        yield case('nat2 %s %s %s %s' % (op, m, A, B), both(same(1, want), wantv(pn, w) if m in 'st' else (lambda o: None)))
        a, b = g.sgn(a), g.sgn(b); op = g.r.choice(list(IB)); m = modes(g)
        if op in ('div', 'rem'): b = b or 1; a = a or 1; m = 'v' if m == 'm' else m
        A, B = ti(a), ti(b); want = ['-', B, A, B] if m in 'at' else [A, B, A, B]; f = IB[op]; w = f(a, a)
        if m == 't': want[1] = '-'
        yield case('big2 %s %s %s %s' % (op, m, A, B), both(same(1, want), wantv(pi, w) if m in 'st' else (lambda o: None)))
        a, b = g.rat(), g.rat(); op = g.r.choice(('add', 'sub', 'mul', 'div')); m = modes(g)
        if op == 'div': b = b or Fraction(1); a = a or Fraction(1)
        A, B = tr(a), tr(b); yield case('rat2 %s %s %s %s' % (op, m, A, B), same(1, ['-', '-' if m == 't' else B, A, B] if m in 'at' else [A, B, A, B]))
        A = tn(g.nat()); yield case('nat1 %s %s' % (g.r.choice(('not', 'sqr', 'sqrt', 'bits', 'tz', 'le', 'be', 'deep')), A), same(1, [A]))
        A = ti(g.int()); yield case('big1 %s %s' % (g.r.choice(('not', 'neg', 'sqr', 'sqrt', 'bits', 'abs', 'le', 'be', 'deep')), A), same(1, [A]))
        A = tn(g.nat()); u = g.limb() or 1; yield case('natu %s v %s %d' % (g.r.choice(('add', 'sub', 'mul', 'div', 'rem')), A, u), same(1, [A, A])); yield case('natu %s a %s %d' % (g.r.choice(('add', 'sub', 'mul', 'div', 'rem')), A, u), same(1, ['-', A]))
        yield case('nats %s v %s %d' % (g.r.choice(('shl', 'shr')), A, g.shift()), same(1, [A, A])); A = ti(g.int()); yield case('bigs %s v %s %d' % (g.r.choice(('shl', 'shr')), A, g.shift()), same(1, [A, A]))
        a, b = g.int(), g.intnz(); op = g.r.choice(('div', 'rem')); f = ed if op == 'div' else (lambda a, b: a % abs(b)); m = g.r.choice('vast')
        if m in 'st': a = a or 3
        yield case('euclid %s %s %s %s' % (op, m, ti(a), ti(b)), both(same(1, [ti(a), ti(b), ti(a)]), wantv(pi, f(a, a) if m in 'st' else f(a, b))))
    for _ in range(g.cnt(300)):
        t = [tn(g.nat(n=g.r.randrange(1, 3))), tn(g.nat(n=1)), tn(g.natnz(n=g.r.randrange(1, 3)))]; yield case('nexp v ' + ' '.join(t), same(1, t)); yield case('npowmod v ' + ' '.join(t), same(1, t))
        A, B = tn(g.nat(n=1)), tn(g.r.randrange(30)); yield case('npow v %s %s' % (A, B), same(1, [A, B]))
        a, b, m = g.natnz(n=2), g.nat(n=1), g.natnz(n=2)
        for mo, (bb, mm) in (('b', (a, m)), ('m', (b, a)), ('x', (m, m)), ('z', (a, a))):
            w = pow(a, bb, mm)
            for c in ('nexp', 'npowmod'): yield case('%s %s %s %s %s' % (c, mo, tn(a), tn(b), tn(m)), both(same(1, [tn(a), tn(bb), tn(mm)]), wantv(pn, w)))
        k = g.r.randrange(1, 40); yield case('npow s %s 0' % tn(k), both(same(1, [tn(k)]), wantv(pn, k ** k)))
        A, B = ti(g.int()), ti(g.int()); yield case('gcd v %s %s' % (A, B), same(3, [A, B])); x, y = g.int(n=1), g.int(n=1); A, B = g.r.choice(((ti(x * y), ti(y)), (ti(y), ti(x * y)), (ti(0), ti(y)), (ti(x), ti(0)), (ti(y), ti(-y)))); yield case('gcd v %s %s' % (A, B), same(3, [A, B])); yield case('gcd s %s %s' % (A, B), same(3, [A, B]))
        A, B = ti(g.int(n=2)), ti(g.intnz(n=2)); yield case('modinv %s %s' % (A, B), same(1, [A, B])); yield case('jacobi %s %s' % (A, B if int(B.lstrip('-').split(',')[0], 16) & 1 else ti(9)), same(1, [A]))
        A, B, C = ti(g.int(n=1)), ti(g.int(n=1)), ti(g.sgn(g.r.randrange(1, 400))); yield case('lincong %s %s %s' % (A, B, C), same(1, [A, B, C]))
        p = g.r.choice((7, 13, 17, 97, 193, 65537, 1000003, (1 << 61) - 1)); A = ti(g.int(n=2)); yield case('modsqrt %s %s' % (A, ti(p)), same(1, [A, ti(p)]))
        A, B = tn(g.nat(big=.3)), tn(g.nat(big=.3)); yield case('nmulk %s %s' % (A, B), same(1, [A, B])); A, B = ti(g.int()), ti(g.intnz()); yield case('ratb %s %s' % (A, B), same(1, [A, B]))
        q = g.rat(); yield case('rat1 %s %s' % (g.r.choice(('neg', 'abs', 'deep')), tr(q)), same(1, [tr(q)])); yield case('rat1 f64 %s' % tr(q), same(2, [tr(q)])); A = tn(g.nat(n=2)); yield case('fmt n d %s' % A, same(1, [A])); A = ti(g.int()); yield case('fmt i x %s' % A, same(1, [A]))
        if q: yield case('rat1 inv %s' % tr(q), same(1, [tr(q)]))
        A = tn(g.nat()); yield case('fromn %s' % A, same(2, [A])); yield case('fromw n %s' % A, same(1, [A])); A = tn(g.natnz(n=2)); yield case('nrandom %s -' % A, same(2, [A]))
        A = tn(g.nat(n=2) | 1); yield case('prime %s 2 -' % A, same(1, [A]))
def C09(g):
    for _ in range(g.cnt(700)):
        a, b = g.nat(n=g.r.randrange(1, 4)), g.r.choice((0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 40)); yield case('npow v %s %s' % (tn(a), tn(b)), wantv(pn, a ** b))
        a, b, m = g.nat(n=g.r.randrange(1, 4)), g.nat(n=g.r.randrange(1, 3)), g.natnz(n=g.r.randrange(1, 4))
        mo = g.r.choice('vvvvbmxz'); bb, mm = {'v': (b, m), 'b': (a, m), 'm': (b, a or 1), 'x': (m, m), 'z': (a, a)}[mo]
        if mo in 'mz' and not a: mo, bb, mm = 'v', b, m
        for c in ('nexp', 'npowmod'): yield case('%s %s %s %s %s' % (c, mo, tn(a), tn(b), tn(m)), wantv(pn, pow(a, bb, mm)))
        x, y, z = g.int(n=g.r.randrange(1, 4)), g.nat(n=g.r.randrange(1, 3)), g.intnz(n=g.r.randrange(1, 4)); yield case('iexp v %s %s %s' % (ti(x), ti(y), ti(z)), wantv(pi, pow(x, y, abs(z))))
        if math.gcd(x, z) == 1 and abs(z) > 1: yield case('iexp v %s %s %s' % (ti(x), ti(-y), ti(z)), wantv(pi, pow(x, -y, abs(z))))
        x, y = g.int(n=1), g.r.randrange(20); yield case('iexp v %s %s 0' % (ti(x), ti(y)), wantv(pi, x ** y)); x = abs(x)
        yield case('nexp v %s %s 0' % (tn(x), tn(y)), wantv(pn, x ** y)); yield case('npowmod v %s %s 0' % (tn(x), tn(y)), wantv(pn, x ** y))
    for _ in range(g.cnt(120)):
        a, b, m = g.nat(n=g.r.randrange(1, 9)), g.nat(n=g.r.randrange(2, 5)), g.natnz(n=g.r.randrange(1, 9)); m |= g.r.randrange(2); yield case('nexp v %s %s %s' % (tn(a), tn(b), tn(m)), wantv(pn, pow(a, b, m)))
        k = g.r.randrange(1, 6); m = (1 << (32 * k)) - g.r.choice((1, 3, 5, 17)); a = m - g.r.randrange(1, 4); b = g.nat(n=2); yield case('nexp v %s %s %s' % (tn(a), tn(b), tn(m)), wantv(pn, pow(a, b, m)))
    for a in range(0, 6):
        for b in range(0, 6):
            yield case('npow v %x %x' % (a, b), wantv(pn, a ** b))
            for m in range(0, 6):
                w = a ** b if m == 0 else pow(a, b, m)
                for c in ('nexp', 'npowmod'): yield case('%s v %x %x %x' % (c, a, b, m), wantv(pn, w))
                for s in (-1, 1):
                    w = (s * a) ** b if m == 0 else pow(s * a, b, m); yield case('iexp v %s %x %x' % (ti(s * a), b, m), wantv(pi, w))
    for b in (1 << 32, (1 << 32) + 1, 1 << 64, (1 << 63), (1 << 64) - 1):
        for m in (1, 2, 3, 10, 1 << 32, (1 << 32) + 1, (1 << 64) - 59):
            for a in (0, 1, 2, 3, m, m + 1, (1 << 64) + 13): yield case('nexp v %s %s %s' % (tn(a), tn(b), tn(m)), wantv(pn, pow(a, b, m)))
def C10(g):
    def chk(a, b):
        def c(o):
            p = nopanic(o)
            if p: return p
            d, x, y = pi(o[0])[0], pi(o[1])[0], pi(o[2])[0]
            if d != math.gcd(a, b): return 'gcd is %s, expected %s' % (show(d), show(math.gcd(a, b)))
            return None if a * x + b * y == d else 'a*x+b*y != d: x=%s y=%s' % (show(x), show(y))
        return c
    for _ in range(g.cnt(1000)):
        a, b = g.int(n=g.r.randrange(1, 5)), g.int(n=g.r.randrange(1, 5))
        if g.r.random() < .4: k = g.natnz(n=1); a, b = a * k, b * k
        if g.r.random() < .1: a = b * g.r.randrange(-3, 4)
        yield case('gcd v %s %s' % (ti(a), ti(b)), chk(a, b)); yield case('gcd s %s %s' % (ti(a), ti(b)), chk(a, a))
        n = g.intnz(n=g.r.randrange(1, 4))
        if g.r.random() < .2: n = g.sgn(g.r.randrange(2, 60))
        if abs(n) > 1:
            for _ in range(20):
                if math.gcd(a, n) == 1: break
                a = g.int(n=g.r.randrange(1, 4))
            if math.gcd(a, n) == 1: yield case('modinv %s %s' % (ti(a), ti(n)), wantv(pi, pow(a, -1, abs(n))))
    for _ in range(g.cnt(900)):
        n = g.sgn(g.r.choice((g.r.randrange(1, 40), g.r.randrange(1, 300), 2 ** g.r.randrange(1, 9))))
        if g.r.random() < .4: n *= g.r.choice((1, 1000003, (1 << 32) - 5, (1 << 61) - 1))
        a, b = g.r.choice(((g.r.randrange(-100, 100), g.r.randrange(-100, 100)), (g.int(n=2), g.int(n=2)), (g.int(n=1) * g.r.randrange(1, 12), g.int(n=1) * 60))); d = math.gcd(a, n)
        if d > 400: continue
        def c(o, a=a, b=b, n=abs(n), d=d):
            p = nopanic(o)
            if p: return p
            if b % d: return None if o[0] == 'none' else 'got %s for an equation without solution' % o[0]
            if o[0] == 'none': return 'no solution reported, %d exist' % d
            v = [pi(t)[0] for t in o[0][1:-1].split(';')]
            if len(v) != d or len(set(v)) != d: return '%d distinct of %d solutions, expected %d' % (len(set(v)), len(v), d)
            return next(('%s is no solution in range' % show(x) for x in v if x is None or not (0 <= x < n) or (a * x - b) % n), None)
        yield case('lincong %s %s %s' % (ti(a), ti(b), ti(n)), c)
def shortest(v): return v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little')
def C11(g):
    for _ in range(g.cnt(1200)):
        l = g.r.choice((1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 33)); b = bytes(g.r.choice((0, 0, 255, 1, 128, g.r.randrange(256))) for _ in range(l))
        if g.r.random() < .3: b = b + bytes(g.r.randrange(1, 10))
        if g.r.random() < .3: b = bytes(g.r.randrange(1, 10)) + b
        le, be = int.from_bytes(b, 'little'), int.from_bytes(b, 'big')
        for k in ('nle', 'ns', 'nv', 'nr'): yield case('fromb %s %s' % (k, b.hex()), wantv(pn, le))
        yield case('fromb nbe %s' % b.hex(), wantv(pn, be)); yield case('fromb ibe %s' % b.hex(), wantv(pi, be))
        for k in ('ile', 'is', 'iv', 'ir'): yield case('fromb %s %s' % (k, b.hex()), wantv(pi, le))
        w = [g.limb() for _ in range(g.r.randrange(1, 9))] + [0] * g.r.choice((0, 0, 0, 1, 2, 5)); v = sum(x << 32 * k for k, x in enumerate(w)); t = ','.join('%x' % x for x in w)
        for k in ('nv', 'nr', 'ns'): yield case('fromw %s %s' % (k, t), wantv(pn, v))
        for k in ('iv', 'ir', 'is', 'n'): yield case('fromw %s %s' % (k, t), wantv(pi, v))
        v = g.nat(); 
        for k in ('le', 'cle'): yield case('nat1 %s %s' % (k, tn(v)), lambda o, v=v: nopanic(o) or (None if o[0] == shortest(v).hex() else 'got %s expected %s' % (o[0], shortest(v).hex()))); yield case('big1 %s %s' % (k, ti(g.sgn(v))), lambda o, v=v: nopanic(o) or (None if o[0] == shortest(v).hex() else 'got %s expected %s' % (o[0], shortest(v).hex())))
        for k in ('be', 'cbe'): yield case('nat1 %s %s' % (k, tn(v)), lambda o, v=v: nopanic(o) or (None if o[0] == shortest(v)[::-1].hex() else 'got %s expected %s' % (o[0], shortest(v)[::-1].hex()))); yield case('big1 %s %s' % (k, ti(g.sgn(v))), lambda o, v=v: nopanic(o) or (None if o[0] == shortest(v)[::-1].hex() else 'got %s expected %s' % (o[0], shortest(v)[::-1].hex())))
        for t, bits in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128), ('usize', 64)):
            v = g.r.choice((0, 1, (1 << bits) - 1, 1 << (bits - 1), g.nat(n=4) & ((1 << bits) - 1))); yield case('fromp n %s %d' % (t, v), wantv(pn, v)); yield case('fromp i %s %d' % (t, v), wantv(pi, v))
        for t, bits in (('i8', 8), ('i16', 16), ('i32', 32), ('i64', 64), ('i128', 128), ('isize', 64)):
            v = g.r.choice((0, 1, -1, (1 << bits - 1) - 1, -(1 << bits - 1), -(1 << bits - 1) + 1, g.sgn(g.nat(n=4) & ((1 << bits - 1) - 1)))); yield case('fromp i %s %d' % (t, v), wantv(pi, v))
def errs(o): return nopanic(o) or (None if o[0] == 'err' else 'illegal text accepted as %s' % o[0])
def C12(g):
    for _ in range(g.cnt(2500)):
        base = g.r.choice((2, 8, 10, 16)); nd = g.r.choice((1, 2, 3, 7, 8, 9, 10, 11, 12, 21, 22, 30, 31, 32, 33, 34, 40, 63, 64, 65, 70, 96, 97))
        if base == 10 and nd > 40: nd = g.r.randrange(1, 40)
        al = '0123456789abcdef'[:base]; k = g.r.randrange(5)
        d = [g.r.choice(al) for _ in range(nd)]
        if k == 0: d = [al[-1]] * nd
        if k == 1: d = [g.r.choice('0' + al[-1]) for _ in range(nd)]
        if k == 2: d = ['0'] * g.r.randrange(0, nd) + d
        s = ''.join(d)
        if base == 16: s = g.r.choice((s, s.upper(), ''.join(g.r.choice((c, c.upper())) for c in s)))
        if g.r.random() < .06: d = ['0'] * g.r.randrange(1, 12); s = ''.join(d)
        v = int(s, base); pre = {2: g.r.choice(('0b', '0B')), 8: '0o', 10: '', 16: g.r.choice(('0x', '0X'))}[base]
        sg = g.r.choice(('', '', '+')); t = g.r.choice(('', '', ' ', '\t ')) + sg + pre + s + g.r.choice(('', '', ' ', '\n'))
        yield case('parse n %s' % t.encode().hex(), wantc(pn, v)); yield case('parse i %s' % t.encode().hex(), wantc(pi, v))
        t = g.r.choice(('', ' ')) + '-' + pre + s + g.r.choice(('', ' ')); yield case('parse i %s' % t.encode().hex(), wantc(pi, -v))
        bad = g.r.choice([c for c in 'g/:;@G`zZ .-_~!é٣' + {2: '2', 8: '89', 10: 'aA', 16: 'gG'}[base]]); p = g.r.randrange(1 if base == 10 else 0, len(s) + 1)
        if bad in ' ' and p == len(s): bad = '!'
        if p == 0 and base == 10: continue
        if bad == ' ' : bad = '_'
        t = pre + s[:p] + bad + s[p:]
        yield case('parse n %s' % t.encode().hex(), errs); yield case('parse i %s' % t.encode().hex(), errs); yield case('parse i %s' % ('-' + t).encode().hex(), errs)
    for t in ('', ' ', '+', '-', '++', 'x', 'abc', '-x', '٣', 'é1', '0z12', '0é', '1é', '-é', '0b2', '0o8', '0xg', '0b', '0o', '0x', '--1'):
        c = errs if t not in ('0b', '0o', '0x') else (lambda o: nopanic(o)); yield case('parse n %s' % (t.encode().hex() or '-'), c); yield case('parse i %s' % (t.encode().hex() or '-'), c)
    for x in range(256): yield case('parse n %s' % str(x).encode().hex(), wantc(pn, x)); yield case('parse i %s' % ('-' + str(x)).encode().hex(), wantc(pi, -x))
def fmtv(v, f, ty):
    s = '-' if v < 0 else ''; a = abs(v); alt = f.startswith('#'); f = f.lstrip('#')
    if f == 'd': return s + str(a)
    return s + ({'b': '0b', 'o': '0o', 'x': '0x', 'X': '0x'}[f] if alt else '') + {'b': '{:b}', 'o': '{:o}', 'x': '{:x}', 'X': '{:X}'}[f].format(a)
def C13(g):
    fs = ('d', 'b', 'o', 'x', 'X', '#b', '#o', '#x', '#X')
    def eqs(w):
        def c(o):
            p = nopanic(o)
            if p: return p
            return None if o[0] == w else 'printed %s, expected %s' % (o[0], w)
        return c
    vals = [0, 1, 7, 8, 9, 10, 15, 16, 99, 100, 101, 1 << 30, (1 << 30) - 1, 1 << 31, M32, 1 << 32, (1 << 32) + 5, (1 << 62), (1 << 63), (1 << 64) - 1, 1 << 64, 1 << 96, (1 << 96) - 1, (1 << 93), 10 ** 9, 10 ** 10, 10 ** 19, 10 ** 20, 10 ** 40]
    for v in vals:
        for f in fs: yield case('fmt n %s %s' % (f, tn(v)), eqs(fmtv(v, f, 'n'))); yield case('fmt i %s %s' % (f, ti(-v)), eqs(fmtv(-v, f, 'i')))
    for _ in range(g.cnt(1200)):
        v = g.nat(n=g.r.choice((1, 1, 2, 3, 3, 4, 5, 6, 7))); f = g.r.choice(fs)
        if f == 'd' and g.r.random() < .5: v = 10 ** g.r.randrange(30) * g.r.randrange(1, 10 ** 6)
        yield case('fmt n %s %s' % (f, tn(v)), eqs(fmtv(v, f, 'n'))); v = g.sgn(v); yield case('fmt i %s %s' % (f, ti(v)), eqs(fmtv(v, f, 'i')))
        q = g.rat(); f = g.r.choice(fs); yield case('fmt r %s %s' % (f, tr(q)), eqs(fmtv(q.numerator, f, 'i') + '/' + fmtv(q.denominator, f, 'i')))
    for w in (200, 255, 256, 257, 300):
        v = g.r.getrandbits(32 * w) | 1 << 32 * w - 1
        for f in fs[1:]: yield case('fmt n %s %s' % (f, tn(v)), eqs(fmtv(v, f, 'n')))
    for w in (97, 130):
        v = g.r.getrandbits(32 * w) | 1 << 32 * w - 1; yield case('fmt n d %s' % tn(v), eqs(fmtv(v, 'd', 'n'))); yield case('fmt i d %s' % ti(-v), eqs(fmtv(-v, 'd', 'i')))
def C14(g):
    def c(n): return wantv(pn, math.isqrt(n))
    for n in list(range(200)) + [(1 << k) + d for k in range(2, 200, 3) for d in (-1, 0, 1)]: yield case('nat1 sqrt %s' % tn(n), c(n))
    for _ in range(g.cnt(700)):
        r = g.nat(n=g.r.randrange(1, 5)); n = max(0, r * r + g.r.choice((-2, -1, 0, 1, 2, 2 * r - 1, 2 * r, 2 * r + 1))); yield case('nat1 sqrt %s' % tn(n), c(n))
        n = g.nat(n=g.r.randrange(1, 7)); yield case('nat1 sqrt %s' % tn(n), c(n)); yield case('big1 sqrt %s' % ti(n), wantv(pi, math.isqrt(n)))
        if n: yield case('big1 sqrt %s' % ti(-n), isnan)
def jac(a, n):
    a %= n; r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5): r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3: r = -r
        a %= n
    return r if n == 1 else 0
PR = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 73, 89, 97, 101, 113, 193, 241, 257, 337, 641, 769, 12289, 40961, 65537, 786433, 998244353, 2013265921, 4294967291, 4294967311, (1 << 61) - 1, 18446744069414584321, (1 << 89) - 1, (1 << 107) - 1, (1 << 127) - 1, (1 << 255) - 19, (1 << 224) - (1 << 96) + 1, (1 << 256) - (1 << 224) + (1 << 192) + (1 << 96) - 1, (1 << 256) - (1 << 32) - 977]
def C15(g):
    for a in range(-12, 13):
        for b in range(1, 18, 2): yield case('jacobi %s %s' % (ti(a), ti(-b)), lambda o, w='Some(%d)' % (jac(a, b) * (-1 if a < 0 else 1)): nopanic(o) or (None if o[0] == w else 'got %s, expected %s' % (o[0], w)))
    for _ in range(g.cnt(1500)):
        a, b = g.int(n=g.r.randrange(1, 4)), g.nat(n=g.r.randrange(1, 4)) | 1
        if g.r.random() < .4: a, b = g.r.randrange(-60, 60), g.r.randrange(1, 120) | 1
        if g.r.random() < .2: k = g.natnz(n=1) | 1; a, b = a * k, b * k
        yield case('jacobi %s %s' % (ti(a), ti(b)), lambda o, w='Some(%d)' % jac(a, b): nopanic(o) or (None if o[0] == w else 'got %s, expected %s' % (o[0], w)))
    for _ in range(g.cnt(600)):
        p = g.r.choice(PR); a = g.r.choice((g.r.randrange(-p, 2 * p), g.r.randrange(p) ** 2, -(g.r.randrange(p) ** 2), g.int(n=g.r.randrange(1, 5)), p * g.r.randrange(-3, 4), g.r.randrange(p) ** 2 % p))
        def c(o, a=a, p=p):
            e = nopanic(o)
            if e: return e
            sq = a % p == 0 or pow(a, (p - 1) // 2, p) == 1
            if not sq: return None if o[0] == 'none' else 'non-residue has root %s' % o[0]
            if o[0] == 'none': return 'residue has no root'
            y = pi(o[0])[0]
            return None if y is not None and 0 <= y < p and (y * y - a) % p == 0 else 'wrong root %s' % o[0]
        yield case('modsqrt %s %s' % (ti(a), ti(p)), c)
def prod(a, b):
    r = 1
    for k in range(a, b + 1): r *= k
    return r
def C16(g):
    I = (1 << 63)
    for _ in range(g.cnt(900)):
        l = g.r.choice((0, 1, 2, 3, 5, 10, 30)); a = g.r.choice((g.r.randrange(-40, 40), g.sgn(g.nat(n=1)), g.sgn(g.nat(n=2) % I), (1 << 32) - g.r.randrange(10), -(1 << 32) - g.r.randrange(10), I - 1 - l - g.r.randrange(4), -I + g.r.randrange(4)))
        b = a + l
        if not (-I <= a < I and -I <= b < I): continue
        w = 0 if a <= 0 <= b else prod(a, b); yield case('mulrange %d %d' % (a, b), wantv(pi, w))
        if a > -I: yield case('mulrange %d %d' % (a, a - 1), wantv(pi, 1))
        n = g.r.choice((g.r.randrange(0, 130), g.r.randrange(0, 130), g.nat(n=1), (1 << 32) + g.r.randrange(50), g.nat(n=2) % (I - 1), I - 2)); k = g.r.randrange(0, min(n, 40) + 1)
        if g.r.random() < .4: k = n - k
        yield case('binom %d %d' % (n, k), wantv(pi, math.comb(n, k)))
    for n in range(0, 30):
        for k in range(n + 1): yield case('binom %d %d' % (n, k), wantv(pi, math.comb(n, k)))
    for a in range(-12, 13):
        for b in range(-12, 13): yield case('mulrange %d %d' % (a, b), wantv(pi, 1 if a > b else 0 if a <= 0 <= b else prod(a, b)))
    yield case('mulrange %d -1' % -I, wantv(pi, 0)) if 0 else case('mulrange %d %d' % (-I, 5), wantv(pi, 0))
def wantr(want):
    def c(o):
        p = nopanic(o)
        if p: return p
        if o[0] == 'err': return 'got an error, expected %s' % want
        v, k = pr(o[0])
        if v != want: return 'got %s, expected %s' % (v, want)
        return None if k else '%s is not in lowest terms with positive denominator' % o[0]
    return c
def erro(o): return nopanic(o) or (None if o[0] == 'err' else 'not refused: %s' % o[0])
RB = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b}
def C17(g):
    I = 1 << 63
    for _ in range(g.cnt(1200)):
        a, b = g.rat(), g.rat()
        if g.r.random() < .2: b = a * g.r.choice((1, -1, 2, Fraction(1, 2)))
        if g.r.random() < .1: b = 1 / a if a else b
        op = g.r.choice(list(RB)); m = modes(g)
        if op == 'div':
            b = b or Fraction(1); a = a or Fraction(2)
        w = RB[op](a, a) if m in 'st' else RB[op](RB[op](a, b), b) if m == 'm' else RB[op](a, b)
        yield case('rat2 %s %s %s %s' % (op, m, tr(a), tr(b)), wantr(w))
        yield case('rcmp %s %s' % (tr(a), tr(b)), cmpline(a, b))
        yield case('rat1 neg %s' % tr(a), wantr(-a)); yield case('rat1 abs %s' % tr(a), wantr(abs(a))); yield case('rat1 inv %s' % tr(a), wantr(1 / a) if a else erro)
        x, y = g.int(n=g.r.randrange(1, 4)), g.int(n=g.r.randrange(1, 4))
        if g.r.random() < .4: k = g.natnz(n=1); x, y = x * k, y * k
        if g.r.random() < .1: x = 0
        yield case('ratb %s %s' % (ti(x), ti(y)), wantr(Fraction(x, y)) if y else erro)
        x, y = [g.r.choice((g.r.randrange(-30, 31), g.sgn(g.nat(n=2) % I), -I, I - 1)) for _ in '12']; yield case('ratf %d %d' % (x, y), wantr(Fraction(x, y)) if y else erro)
        x, y = g.int(n=g.r.randrange(1, 3)), g.int(n=g.r.randrange(1, 3)); k = g.r.randrange(1, 50); x, y = x * k, y * k
        f = g.r.choice(('%d/%d', '%d/%d', '0x%x/0x%x')); f = f if x >= 0 and y >= 0 else '%d/%d'
        yield case('parse r %s' % (f % (x, y)).encode().hex(), wantr(Fraction(x, y)) if y else erro); yield case('parse r %s' % ('%d' % x).encode().hex(), wantr(Fraction(x)))
        d = g.r.randrange(-1000, 1000) / 8; yield case('parse r %s' % repr(d).encode().hex(), wantr(Fraction(d)))
        t, bits = g.r.choice((('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128), ('usize', 64))); v = g.nat(n=4) & ((1 << bits) - 1); yield case('fromp r %s %d' % (t, v), wantr(Fraction(v)))
        t, bits = g.r.choice((('i8', 8), ('i16', 16), ('i32', 32), ('i64', 64), ('i128', 128), ('isize', 64))); v = g.r.choice((-(1 << bits - 1), g.sgn(g.nat(n=4) & ((1 << bits - 1) - 1)))); yield case('fromp r %s %d' % (t, v), wantr(Fraction(v)))
        v = g.nat(n=2); yield case('fromn %s' % tn(v), lambda o, v=v: wantr(Fraction(v))(o) or wantr(Fraction(v))(o[1:]))
        yield case('rat1 sgn %s' % tr(a), lambda o, a=a: None if o[0] == 'Some(%d),Some(%s)' % ((a > 0) - (a < 0), str(a.denominator == 1).lower()) else 'got %s' % o)
    pan = lambda o: None if o[0] == 'PANIC' else 'division by zero did not panic: %s' % o
    for _ in range(10): yield case('rat2 div v %s 0/1' % tr(g.rat()), pan)
    for t in ('', 'x', '1/', '/2', '1/0', 'a/b', '1//2', '1/2/3', '1.x'): yield case('parse r %s' % (t.encode().hex() or '-'), erro)
def nearest(q, mb, emin, emax):
    """value of q rounded to nearest even in the format with mb fraction bits; None = overflow"""
    if q == 0: return Fraction(0)
    a = abs(q); e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < Fraction(2) ** e: e -= 1
    if a >= Fraction(2) ** (e + 1): e += 1
    e = max(e, emin); ulp = Fraction(2) ** (e - mb); k = a / ulp; f = k.numerator // k.denominator; r = k - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1): f += 1
    v = f * ulp
    if v >= Fraction(2) ** (emax + 1): return None
    return v if q > 0 else -v
def C18(g):
    def to(q, ty):
        mb, emin, emax = (52, -1022, 1023) if ty == 'f64' else (23, -126, 127)
        w = nearest(q, mb, emin, emax)
        def c(o):
            p = nopanic(o)
            if p: return p
            f = struct.unpack('<d', struct.pack('<Q', int(o[0], 16)))[0] if ty == 'f64' else struct.unpack('<f', struct.pack('<I', int(o[0], 16)))[0]
            if w is None: ok = math.isinf(f) and (f > 0) == (q > 0) and o[1] == 'false'
            else: ok = not math.isinf(f) and not math.isnan(f) and Fraction(f) == w and (o[1] == 'true') == (w == q)
            return None if ok else 'got %r exact=%s, nearest is %s exact=%s' % (f, o[1], w, w == q)
        return case('rat1 %s %s' % (ty, tr(q)), c)
    for _ in range(g.cnt(1500)):
        b = g.r.choice((g.r.getrandbits(64), (g.r.choice((0, 1, 2, 1022, 1023, 1024, 1075, 1076, 1100, 2045, 2046)) << 52) | g.r.choice((0, 1, (1 << 52) - 1, g.r.getrandbits(52))), g.r.getrandbits(64) & ~(0x7ff << 52)))
        if g.r.random() < .3: b ^= 1 << 63
        f = struct.unpack('<d', struct.pack('<Q', b & ((1 << 64) - 1)))[0]; yield case('ratfromf64 %x' % (b & ((1 << 64) - 1)), isnan if math.isnan(f) or math.isinf(f) else wantr(Fraction(f)))
        b = g.r.choice((g.r.getrandbits(32), (g.r.choice((0, 1, 126, 127, 128, 150, 151, 160, 254)) << 23) | g.r.choice((0, 1, (1 << 23) - 1, g.r.getrandbits(23)))))
        f = struct.unpack('<f', struct.pack('<I', b))[0]; yield case('ratfromf32 %x' % b, isnan if math.isnan(f) or math.isinf(f) else wantr(Fraction(f)))
        for ty, mb, emin, emax in (('f64', 52, -1022, 1023), ('f32', 23, -126, 127)):
            k = g.r.randrange(6)
            if k == 0: q = g.rat()
            else:
                e = g.r.choice((g.r.randrange(emin - mb - 3, emin + 3), g.r.randrange(emin, emax + 2), g.r.randrange(-70, 70), emax, emax - 1)); m = (1 << mb) | g.r.choice((0, 1, (1 << mb) - 1, (1 << mb) - 2, g.r.getrandbits(mb)))
                q = Fraction(m) * Fraction(2) ** (e - mb); u = Fraction(2) ** (max(e, emin) - mb)
                q += g.r.choice((0, u / 2, u / 2, u / 4, 3 * u / 4, u / 2 + u / (1 << 20), u / 2 - u / (1 << 20), u / 3) + tuple(u / 2 + sg * u / (1 << k) for k in (26, 31, 34, 54, 64, 100, 200) for sg in (1, -1)))
            q = g.sgn(q); yield to(q, ty)
    for ty, mb, emin, emax in (('f64', 52, -1022, 1023), ('f32', 23, -126, 127)):
        t = Fraction(2) ** (emin - mb)
        for q in (Fraction(0), t, t / 2, t / 2 + t / 1000, t / 2 - t / 1000, t / 4, 3 * t / 2, Fraction(2) ** emin, Fraction(2) ** emin - t, Fraction(2) ** emin - t / 2, Fraction(2) ** emin - t / 4, Fraction(2) ** (emax + 1), Fraction(2) ** (emax + 1) - Fraction(2) ** (emax - mb), Fraction(2) ** (emax + 1) - Fraction(2) ** (emax - mb - 1), Fraction(2) ** (emax + 1) - Fraction(2) ** (emax - mb - 2) , Fraction(1, 3), Fraction(10) ** 400, Fraction(1, 10 ** 400)): yield to(q, ty); yield to(-q, ty)
def mt_ref(bits, seed, w, n, m, r, a, u, d, s, b, t, c, l, f, k):
    M = (1 << w) - 1; st = [seed & M]
    for i in range(1, n): st.append((f * (st[-1] ^ (st[-1] >> (w - 2))) + i) & M)
    out = []; idx = n; lo = (1 << r) - 1; up = M & ~lo
    for _ in range(k):
        if idx >= n:
            for i in range(n):
                y = (st[i] & up) | (st[(i + 1) % n] & lo); st[i] = st[(i + m) % n] ^ (y >> 1) ^ (a if y & 1 else 0)
            idx = 0
        z = st[idx]; idx += 1
        z ^= (z >> u) & d; z ^= (z << s) & b; z ^= (z << t) & c; z ^= z >> l; out.append(z & M)
    return out
def lf_ref(bits, w, s, r, seed, k):
    x = seed; T = (1 << bits) - 1; st = []; nw = (w + 31) // 32
    for _ in range(r):
        v = 0
        for j in range(nw): x = 40014 * x % 2147483563; v += x << (32 * j)
        st.append(v & T & ((1 << w) - 1))
    carry = 1 if st[-1] == 0 else 0; out = []; X = list(st)
    for i in range(k):
        y = X[len(X) - s] - X[len(X) - r] - carry
        carry = 1 if y < 0 else 0; y %= 1 << w; X.append(y); out.append(y)
    return out
def C19(g):
    def seq(w):
        w = ','.join(map(str, w + ['reset'] + w[:3])) if w is not None else 'err'
        return lambda o: nopanic(o) or (None if o[0] == w else 'sequence differs: got %s expected %s' % (o[0][:200], w[:200]))
    for _ in range(g.cnt(400)):
        t, bits = g.r.choice((('u32', 32), ('u64', 64), ('usize', 64))); T = (1 << bits) - 1
        v = lambda: g.r.choice((g.nat(n=2) & T, T - g.r.randrange(3), g.r.randrange(10), g.r.getrandbits(bits)))
        a, c, m, x = v(), v(), v(), v(); k = g.r.randrange(1, 9); w = []; y = x
        if m:
            for _ in range(k): y = (a * y + c) % m; w.append(y)
        yield case('lcg %s %d %d %d %d %d' % (t, a, c, m, x, k), seq(w if m else None))
        w_ = g.r.choice((bits, bits, g.r.randrange(2, bits + 1))); n = g.r.choice((1, 2, 3, 5, 8, 13, 30)); m = g.r.randrange(1, n + 1); r = g.r.randrange(1, w_); M = (1 << w_) - 1
        nz = lambda: g.r.choice((1, M, g.r.randrange(1, M + 1))); sh = lambda: g.r.randrange(0, w_)
        a, u, d, s, b, tt, c, l, f = nz(), sh(), nz(), sh(), nz(), sh(), nz(), g.r.randrange(1, w_), nz(); k = g.r.randrange(1, 3 * n + 4); seed = v()
        yield case('mt %s %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d' % (t, seed, w_, n, m, r, a, u, d, s, b, tt, c, l, f, k), seq(mt_ref(bits, seed, w_, n, m, r, a, u, d, s, b, tt, c, l, f, k)))
        w_ = g.r.choice((bits, g.r.randrange(1, bits + 1))); r = g.r.randrange(2, 30); s = g.r.randrange(1, r); k = g.r.randrange(1, 3 * r); seed = v(); yield case('lf %s %d %d %d %d %d' % (t, w_, s, r, seed, k), seq(lf_ref(bits, w_, s, r, seed, k)))
    for sd in (1, 5489, 12345, 0, g.r.getrandbits(32), M32):
        k = 1300
        yield case('macro mt19937 %d %d' % (sd, k), seq(mt_ref(32, sd, 32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253, k)))
        yield case('macro mt19937_64 %d %d' % (sd, k), seq(mt_ref(64, sd, 64, 312, 156, 31, 0xb5026f5aa96619e9, 29, 0x5555555555555555, 17, 0x71d67fffeda60000, 37, 0xfff7eee000000000, 43, 6364136223846793005, k)))
        for nm, a in (('minstd0', 16807), ('minstd', 48271)):
            w = []; y = sd
            for _ in range(50): y = a * y % 2147483647; w.append(y)
            yield case('macro %s %d 50' % (nm, sd), seq(w))
        yield case('macro ranlux24 %d 200' % sd, seq(lf_ref(32, 24, 10, 24, sd, 200))); yield case('macro ranlux48 %d 200' % sd, seq(lf_ref(64, 48, 5, 12, sd, 200)))
    E = lambda o: nopanic(o) or (None if o[0] == 'err' else 'invalid parameters accepted')
    good = [32, 5, 3, 31, 7, 11, 9, 7, 8, 15, 6, 18, 5]   # w n m r a u d s b t c l f
    for k, v in ((0, 33), (0, 0), (2, 6), (2, 0), (3, 32), (3, 33), (3, 0), (4, 0), (5, 32), (7, 32), (9, 32), (11, 32), (11, 0), (12, 0)):
        p = list(good); p[k] = v; yield case('mt u32 1 %s 3' % ' '.join(map(str, p)), E)
    small = [16, 5, 3, 15, 7, 11, 9, 7, 8, 14, 6, 13, 5]
    for k in (4, 6, 8, 10, 12): p = list(small); p[k] = 1 << 16; yield case('mt u32 1 %s 3' % ' '.join(map(str, p)), E)
    for p in ((0, 3, 5), (32, 0, 5), (32, 5, 5), (32, 6, 5), (33, 3, 5), (32, 3, 0)): yield case('lf u32 %d %d %d 1 3' % p, E)
    for t, mx in (('u64', 65), ('usize', 65)): yield case('lf %s %d 3 5 1 3' % (t, mx), E)
    yield case('lcg u32 1 1 0 1 3', E)
def C20(g):
    def c(b, neg=False):
        def f(o):
            p = nopanic(o)
            if p: return p
            v, k = (pi if neg else pn)(o[0])
            if v is None: return 'NaN for a valid bound'
            if not k: return '%s is not canonical' % o[0]
            return None if (b < v <= 0 if b < 0 else 0 <= v < b) else '%s out of range for bound %s' % (show(v), show(b))
        return f
    for _ in range(g.cnt(1200)):
        b = g.r.choice((g.natnz(n=g.r.randrange(1, 5)), 1 << g.r.randrange(100), (1 << g.r.randrange(1, 100)) - 1 or 1, g.r.randrange(1, 6), (1 << 32 * g.r.randrange(1, 4)) + g.r.randrange(-1, 2)))
        s = ','.join(g.r.choice(('e', '%08x' % g.limb(), '%08x' % g.limb())) for _ in range(g.r.randrange(0, 12))) or '-'
        yield case('nrandom %s %s' % (tn(b), s), c(b)); yield case('irandom %s %s' % (ti(b), s), c(b, True)); yield case('irandom %s %s' % (ti(-b), s), c(-b, True))
        # every value reachable: a source that yields exactly the words of v makes random return v
        v = g.r.choice((0, b - 1, g.r.randrange(b))); nw = (b.bit_length() + 31) // 32
        words = ','.join('%08x' % ((v >> 32 * k) & M32) for k in range(nw)); yield case('nrandom %s %s' % (tn(b), words), both(c(b), wantv(pn, v)))
    for z in ('0', 'nan'): yield case('nrandom %s 1,2,3' % z, isnan); yield case('irandom %s 1,2,3' % z, isnan)
SP = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]
def isprime(n):
    if n < 2: return False
    for p in SP:
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in SP + [59, 61, 67, 71]:
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def C21(g):
    T = lambda w: (lambda o: nopanic(o) or (None if o[0] == str(w).lower() else 'test says %s, expected %s' % (o[0], w)))
    scr = lambda n: g.r.choice(('-', '-', '0,0,0,0', 'e,e,1', ','.join('%08x' % g.limb() for _ in range(8)), tn(max(0, n - 1)), tn(1) + ',0,0,0'))
    for n in range(0, 1100):
        small = n < 2 or (n > 2 and n % 2 == 0) or any(n % p == 0 and n != p for p in SP)
        if small or isprime(n): yield case('prime %s %d %s' % (tn(n), g.r.randrange(0, 3), scr(n)), T(isprime(n)))
    for _ in range(g.cnt(120)):
        bits = g.r.choice((16, 20, 31, 32, 33, 40, 63, 64, 65, 96, 97)); n = g.r.getrandbits(bits) | 1
        while not isprime(n): n += 2
        yield case('prime %s %d %s' % (tn(n), g.r.randrange(0, 3), scr(n)), T(True))
        p = g.r.choice(SP); m = p * g.natnz(n=g.r.randrange(1, 4)); 
        if m != p: yield case('prime %s %d %s' % (tn(m), g.r.randrange(0, 3), scr(m)), T(False))
    for p in PR: yield case('prime %s 1 %s' % (tn(p), scr(p)), T(True))
    for n in range(1101, 10300, 2):
        if isprime(n): yield case('prime %s %d -' % (tn(n), g.r.randrange(0, 2)), T(True))
    for e in list(range(8, 66)) + [95, 96, 97, 127, 128, 160]:
        for c in (1, -1):
            k = g.r.randrange(1, 60) | 1
            while not isprime((k << e) + c): k += 2
            yield case('prime %s %d %s' % (tn((k << e) + c), g.r.randrange(0, 3), scr(3)), T(True))
    for bits in (128, 160, 192, 224, 255, 256, 257, 320, 384, 512):
        n = g.r.getrandbits(bits) | 1 | 1 << bits - 1
        while not isprime(n): n += 2
        yield case('prime %s 1 %s' % (tn(n), scr(n)), T(True)); p = g.r.choice(SP); yield case('prime %s 1 -' % tn(n * p), T(False))
    yield case('prime nan 3 -', T(False))
    for b in (0, 1): yield case('genprime %d 2 -' % b, lambda o: None if o[0] == 'err' else 'length below 2 accepted')
    for b in [2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 47, 63, 64, 65, 66, 96, 97]:
        for s in ('-', '0,0,0,0', 'ffffffff,ffffffff,ffffffff,ffffffff', 'e,e', '1,e,2,e', 'ffffffff,e'):
            def c(o, b=b):
                p = nopanic(o)
                if p: return p
                v, k = pn(o[0])
                return None if v is not None and k and v & 1 and v.bit_length() == b and isprime(v) and o[1] == 'true' else 'generated %s (test %s) for %d bits' % (o[0], o[1:], b)
            yield case('genprime %d 2 %s' % (b, s), c)
def C22(g):
    for _ in range(g.cnt(2500)):
        a = g.nat(); e = max(1, a.bit_length()); yield case('nat1 bits %s' % tn(a), lambda o, e=e: None if o[0] == str(e) else 'bits_len %s expected %d' % (o[0], e)); yield case('big1 bits %s' % ti(g.sgn(a)), lambda o, e=e: None if o[0] == str(e) else 'bits_len %s expected %d' % (o[0], e))
        i = g.r.choice((g.r.randrange(e + 2), e - 1, e, 0, g.r.randrange(e), 31, 32, g.shift(a), (1 << 40), (1 << 64) - 1))
        w = 'None' if i >= e else 'Some(%s)' % str(bool(a >> i & 1)).lower(); yield case('bit %s %d' % (tn(a), i), lambda o, w=w: nopanic(o) or (None if o[0] == w else 'got %s expected %s' % (o[0], w)))
        b = g.sgn(a); w = 'None' if i >= e else 'Some(%s)' % str(bool(b >> i & 1)).lower(); yield case('ibit %s %d' % (ti(b), i), lambda o, w=w: nopanic(o) or (None if o[0] == w else 'got %s expected %s' % (o[0], w)))
        a = g.natnz() << g.r.choice((0, 1, 31, 32, 33, 64, g.r.randrange(200))); t = (a & -a).bit_length() - 1; yield case('nat1 tz %s' % tn(a), lambda o, t=t: nopanic(o) or (None if o[0] == str(t) else 'got %s expected %d' % (o[0], t)))
        x = g.r.choice((g.int(), 0, 1, -1)); w = 'Some(%d),%s,%s,%s,false' % ((x > 0) - (x < 0), str(x < 0).lower(), str(x > 0).lower(), str(x >= 0).lower()); yield case('big1 sgn %s' % ti(x), lambda o, w=w: None if o[0] == w else 'got %s expected %s' % (o[0], w))
    for n in (255, 256, 257, 4096, 8191, 8192, 65535, 65536, 65537, 70003, 131072, 300000):  # widths where a narrower counter would wrap
        a = 5 << n; e = a.bit_length()
        yield case('nat1 tz %s' % tn(a), lambda o, n=n: nopanic(o) or (None if o[0] == str(n) else 'got %s expected %d' % (o[0], n)))
        yield case('nat1 bits %s' % tn(a), lambda o, e=e: nopanic(o) or (None if o[0] == str(e) else 'got %s expected %d' % (o[0], e)))
        for i in (n - 1, n, n + 1, n + 2, n + 3, 0, n & 0xffff, n & 0xff):
            w = 'None' if i >= e else 'Some(%s)' % str(bool(a >> i & 1)).lower(); yield case('bit %s %d' % (tn(a), i), lambda o, w=w: nopanic(o) or (None if o[0] == w else 'got %s expected %s' % (o[0], w)))
            w = 'None' if i >= e else 'Some(%s)' % str(bool(-a >> i & 1)).lower(); yield case('ibit %s %d' % (ti(-a), i), lambda o, w=w: nopanic(o) or (None if o[0] == w else 'got %s expected %s' % (o[0], w)))
    yield case('nat1 bits nan', lambda o: None if o[0] == '0' else 'bits_len of NaN'); yield case('bit nan 0', lambda o: None if o[0] == 'None' else 'bit of NaN')
def C25(g):
    def np(o): return nopanic(o)
    for n in list(range(1, 24)) + [39, 40, 41, 42, 60, 79, 80, 81, 100, 120, 160, 200, 259, 260, 261, 300, 519, 520, 521, 530, 600]:
        for m in {1, 2, 3, n, max(1, n - 1), n + 1, (n + 1) // 2, 40, 41} if n < 300 else {n, 1, 40}:
            a, b = g.nat(n=n) | (1 << 32 * n - 1), g.nat(n=m) | (1 << 32 * m - 1); yield case('nmulk %s %s' % (tn(a), tn(b)), np)
            if n < 130: yield case('nat2 mul v %s %s' % (tn(a), tn(b)), np); yield case('nat2 mul t %s %s' % (tn(a), tn(b)), np); yield case('nat2 add a %s %s' % (tn(a), tn(b)), np); yield case('nat2 sub a %s %s' % (tn(a), tn(b)), np)
        yield case('nat1 sqr %s' % tn(a), np)
        if n < 30: m = g.nat(n=n) | (1 << 32 * n - 1); yield case('nexp v %s %s %s' % (tn(a), tn(g.nat(n=2)), tn(m | 1)), np); yield case('nexp v %s %s %s' % (tn(a), tn(g.nat(n=2)), tn(m & ~1)), np)
    for _ in range(g.cnt(400)):
        for op in NB:
            a, b = g.pair(big=.1); m = modes(g)
            if op in ('div', 'rem'): a, b = g.nat() or 1, g.nat() or 1; m = 'v' if m == 'm' else m
            yield case('nat2 %s %s %s %s' % (op, m, tn(a), tn(b)), np); yield case('big2 %s %s %s %s' % (op, m, ti(g.sgn(a)), ti(g.sgn(b))), np)
        a = g.nat(); s = g.shift(a); yield case('nats %s %s %s %d' % (g.r.choice(('shl', 'shr')), g.r.choice('va'), tn(a), s), np); yield case('bigs %s %s %s %d' % (g.r.choice(('shl', 'shr')), g.r.choice('va'), ti(g.sgn(a)), s), np)
        a, b = g.int(n=2), g.int(n=2); yield case('gcd v %s %s' % (ti(a), ti(b)), np); yield case('nat1 %s %s' % (g.r.choice(('not', 'sqr', 'sqrt', 'bits', 'tz', 'le', 'be')), tn(g.nat())), np)
        a = g.r.randrange(1, 1 << 40); yield case('mulrange %d %d' % (a, a + g.r.randrange(20)), np); yield case('fmt n %s %s' % (g.r.choice('dboxX'), tn(g.nat(n=3))), np)
        yield case('fromb nle %s' % bytes(g.r.randrange(256) for _ in range(g.r.randrange(1, 20))).hex(), np)
PROPS = {k: v for k, v in list(globals().items()) if re.fullmatch(r'C\d\d', k)}

# ---------------------------------------------------------------- running
def build(target='build/driver', asan=False):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(V, target), RUSTC_WRAPPER='', RUSTFLAGS='')
    cmd = ['cargo', '+stable', 'build', '--offline', '-q']
    if asan:
        env['RUSTFLAGS'] = '-Zsanitizer=address --cap-lints allow -A unstable_imports'; cmd = ['cargo', '+nightly', 'build', '--offline', '-q', '--target', 'x86_64-unknown-linux-gnu']
    p = subprocess.run(cmd, cwd=os.path.join(V, 'driver'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, os.path.join(V, target, 'x86_64-unknown-linux-gnu/debug/driver' if asan else 'debug/driver')
def run_cases(binp, cmds, limit_ms=20000):
    """outputs of the driver; a command that kills or hangs the driver yields 'PANIC process ...'"""
    outs = []; k = 0
    # 4 GB per driver process, so that a runaway allocation ends the command and not the machine (the address sanitizer needs the whole address space)
    argv = [binp] if 'linux-gnu' in binp or not shutil.which('prlimit') else ['prlimit', '--as=4000000000', binp]
    while k < len(cmds):
        p = subprocess.run(argv, input='\n'.join(cmds[k:]) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, DRIVER_LIMIT_MS=str(limit_ms)))
        o = p.stdout.split('\n')
        if o and o[-1] == '': o.pop()
        outs += o; k += len(o)
        if k < len(cmds):
            why = 'PANIC process did not finish within %d ms' % limit_ms if p.returncode == 99 else 'PANIC process died with status %d: %s' % (p.returncode, p.stderr[:600].replace('\n', ' | '))
            outs.append(why); k += 1
            if outs.count(why) > 3 or sum(x.startswith('PANIC process') for x in outs) > 8: break
    return outs
def search(prop, seed, scale=1.0, binp=None, maxfail=5):
    g = G((seed, prop).__repr__(), scale)
    cs = list(PROPS[prop](g))
    seen = set(); cmds = []; chks = []
    for c, f in cs:
        if c in seen: continue
        seen.add(c); cmds.append(c); chks.append(f)
    # split over processes
    import concurrent.futures as cf
    nproc = min(8, max(1, len(cmds) // 200)); parts = [list(range(k, len(cmds), nproc)) for k in range(nproc)]
    res = [None] * len(cmds)
    with cf.ThreadPoolExecutor(nproc) as ex:
        for idx, out in zip(parts, ex.map(lambda ix: run_cases(binp, [cmds[j] for j in ix]), parts)):
            for j, o in zip(idx, out): res[j] = o
    fails = []; ran = 0
    for j, o in enumerate(res):
        if o is None: continue
        ran += 1
        try: m = chks[j](o.split(' '))
        except Exception as e: m = 'unreadable output %r (%s)' % (o[:200], e)
        if m: fails.append({'command': cmds[j], 'output': o[:2000], 'why': m[:1000]})
    fails.sort(key=lambda f: len(f['command']))
    nontrivial = sum(1 for c in cmds if any(',' in t or len(t) > 3 for t in c.split(' ')[2:]))
    return {'cases': len(cs), 'ran': ran, 'distinct': len(cmds), 'nontrivial': nontrivial, 'fails': fails[:maxfail], 'nfails': len(fails), 'samples': [cmds[k][:300] for k in range(0, len(cmds), max(1, len(cmds) // 3))][:3]}
if __name__ == '__main__':
    if sys.argv[1] == 'lits':
        json.dump(sorted(literals()), open(os.path.join(V, 'tools', 'base_literals.json'), 'w')); sys.exit()
    rc, out, b = build()
    if rc: print(out); sys.exit(2)
    for p in sys.argv[1:] if sys.argv[1] != 'all' else sorted(PROPS):
        t = time.time(); r = search(p, int(os.environ.get('VERIF_SEED', '1')), float(os.environ.get('SCALE', '1')), b)
        print(p, r['ran'], r['nfails'], '%.1fs' % (time.time() - t))
        for f in r['fails']: print('   ', f['command'][:200], '->', f['output'][:150], '|', f['why'][:200])
