# ---- slice kernels, range products, binomials
L('ins', '''
pub open spec fn ins(h: Hp, s: Sl) -> bool { s.c < h.len() && s.lo <= s.hi <= h[s.c as int].len() }
pub open spec fn sv(h: Hp, s: Sl, n: int) -> int { rv(h[s.c as int], s.lo as int, n) }
pub open spec fn djs(z: Sl, x: Sl) -> bool { x.c != z.c || x.hi <= z.lo || z.hi <= x.lo }
''')
for nm, sg, lem in (('add_vv', '+', 'lemma_addc'), ('sub_vv', '-', 'lemma_subc')):
    F(AG + nm, nm, props='C16', req='ins(H, z), ins(H, x), ins(H, y), z.hi - z.lo == x.hi - x.lo, z.hi - z.lo == y.hi - y.lo, djs(z, x), djs(z, y)',
      ens='frr(O, H, z.c, z.lo as int, z.hi - z.lo), H.len() == O.len(), r <= 1, sv(H, z, z.hi - z.lo) %s r * pw(z.hi - z.lo) == sv(O, x, z.hi - z.lo) %s sv(O, y, z.hi - z.lo)' % (sg, sg),
      loops={0: dict(inv='frr(h0, H, z.c, z.lo as int, i0 as int), H.len() == h0.len(), acc0 <= 1, sv(H, z, i0 as int) %s acc0 * pw(i0 as int) == sv(h0, x, i0 as int) %s sv(h0, y, i0 as int)' % (sg, sg), ghost=['c0 = acc0'],
        le='let n = i0 as int; lemma_rv_eq(H[[z.c]], z.lo as int, hl0[[z.c]], z.lo as int, n); %s(sv(hl0, z, n), c0 as int, sv(h0, x, n) %s sv(h0, y, n), H[[z.c]][z.lo + n] as int, acc0 as int, h0[[x.c]][x.lo + n] as int, h0[[y.c]][y.lo + n] as int, n); lemma_step(H[[z.c]], z.lo as int, n); lemma_step(h0[[x.c]], x.lo as int, n); lemma_step(h0[[y.c]], y.lo as int, n);' % (lem, sg))})
F(AG + 'add_mul_vvw', 'add_mul_vvw', props='C09', req='ins(H, z), ins(H, x), z.hi - z.lo == x.hi - x.lo, djs(z, x)',
  ens='frr(O, H, z.c, z.lo as int, z.hi - z.lo), H.len() == O.len(), sv(H, z, z.hi - z.lo) + r * pw(z.hi - z.lo) == sv(O, x, z.hi - z.lo) * y + sv(O, z, z.hi - z.lo)',
  loops={0: dict(inv='frr(h0, H, z.c, z.lo as int, i0 as int), H.len() == h0.len(), sv(H, z, i0 as int) + acc0 * pw(i0 as int) == sv(h0, x, i0 as int) * y + sv(h0, z, i0 as int)', ghost=['c0 = acc0'],
    ls='let a = h0[[x.c]][x.lo + i0]; lemma_mulword(a, y); assert(c0 <= 0xffff_ffff);',
    le='let n = i0 as int; lemma_rv_eq(H[[z.c]], z.lo as int, hl0[[z.c]], z.lo as int, n); lemma_mulc(sv(hl0, z, n), c0 as int, sv(h0, x, n), sv(h0, z, n), y as int, H[[z.c]][z.lo + n] as int, acc0 as int, h0[[x.c]][x.lo + n] as int, h0[[z.c]][z.lo + n] as int, n); lemma_step(H[[z.c]], z.lo as int, n); lemma_step(h0[[x.c]], x.lo as int, n); lemma_step(h0[[z.c]], z.lo as int, n);')})
L('prodr', '''
/// product of all the integers in [a, b]
pub open spec fn prodr(a: int, b: int) -> int decreases b - a + 1 { if a > b { 1 } else { prodr(a, b - 1) * b } }
''')
F(NAT + 'mul_range', 'nat_mul_range', props='C16 C06', req='', ens='ex(O, H), r >= O.len(), cn(H, r), !na(H, r), nv(H, r) == (if a == 0 { 0 } else { prodr(a as int, b as int) })',
  loops={0: dict(inv='''ex(h0, H), tmp_high >= h0.len(), tmp_low >= h0.len(), res >= h0.len(), ok(H, tmp_high), ok(H, tmp_low), cn(H, res), !na(H, res), tmp_high != tmp_low, tmp_high != res, tmp_low != res, n0 == b - a, nv(H, res) == prodr(a as int, a + i0 - 1) * b''',
    pre='lemma_mul_basics(b as int); assert(prodr(a as int, a - 1) == 1);',
    ghost=['R = nv(h@, res)'],
    ls='lemma_p2_0(); lemma_lohi((a + i0) as u64);',
    le='''let e = a + i0; let q = prodr(a as int, e - 1); assert(prodr(a as int, e) == q * e); lemma_mul_is_associative(q, e, b as int); lemma_mul_is_commutative(e, b as int); lemma_mul_is_associative(q, b as int, e);''')},
  at={'before add_vv:0': '''let n = len as int; lemma_rv_top0(H[[tmp_high]], 0, gth, n); lemma_rv_top0(H[[tmp_low]], 0, gtl, n); lemma_rv_eq(H[[tmp_high]], 0, g1[[tmp_high]], 0, gth); lemma_rv_eq(H[[tmp_low]], 0, g1[[tmp_low]], 0, gtl);
        let e = (a + i0) as int; lemma_mul_is_distributive_add(R, high as int * 0x1_0000_0000, lower as int); lemma_mul_is_associative(R, high as int, 0x1_0000_0000); assert(sv(H, Sl{c: tmp_high, lo: 0, hi: len}, n) + sv(H, Sl{c: tmp_low, lo: 0, hi: len}, n) == R * e);''',
     'after shl_inner:0': 'g1 = H; gth = H[[tmp_high]].len() as int; gtl = H[[tmp_low]].len() as int;',
     'before trim_head_zero:0': 'let n = len as int; lemma_rv_eq(H[[res]], 0, ga[[res]], 0, n); lemma_step(H[[res]], 0, n);', 'after add_vv:0': 'ga = H;',
     'ret': 'if a < b { assert(prodr(a as int, b as int) == prodr(a as int, b - 1) * b); } if a == b { assert(prodr(a as int, a - 1) == 1); assert(prodr(a as int, a as int) == 1 * a); }'},
  ghost=['mut g1: Hp = h@', 'mut gth: int = 0', 'mut gtl: int = 0', 'mut ga: Hp = h@'])
L('lemma_prodr', '''
pub proof fn lemma_prodr_front(a: int, b: int) requires a <= b ensures prodr(a, b) == a * prodr(a + 1, b) decreases b - a
{ if a == b { assert(prodr(a, a - 1) == 1); assert(prodr(a + 1, a) == 1); assert(1 * a == a * 1); } else { lemma_prodr_front(a, b - 1); lemma_mul_is_associative(a, prodr(a + 1, b - 1), b); } }
/// a range of negative numbers: the mirrored range, with the sign of its length
pub proof fn lemma_prodr_neg(a: int, b: int) requires b < 0, a <= b + 1 ensures prodr(a, b) == (if (b - a) % 2 == 0 { -prodr(-b, -a) } else { prodr(-b, -a) }) decreases b - a + 1
{ if a == b + 1 { assert(prodr(-b, -a) == 1); } else { lemma_prodr_neg(a + 1, b); lemma_prodr_front(a, b); let q = prodr(-b, -a - 1); assert(prodr(-b, -a) == q * (-a)); assert(a * q == -(q * (-a)) && a * (-q) == q * (-a)) by(nonlinear_arith); } }
pub proof fn lemma_prodr_pos(a: int, b: int) requires a >= 1 ensures prodr(a, b) >= 1 decreases b - a + 1
{ if a <= b { lemma_prodr_pos(a, b - 1); let q = prodr(a, b - 1); assert(q * b >= 1) by(nonlinear_arith) requires q >= 1, b >= 1; } }
pub proof fn lemma_prodr_zero(a: int, b: int) requires a <= 0 <= b ensures prodr(a, b) == 0 decreases b - a + 1
{ if b > 0 { lemma_prodr_zero(a, b - 1); assert(0 * b == 0); } else { assert(prodr(a, b - 1) * 0 == 0); } }
''')
F(BI + 'mul_range', 'bi_mul_range', props='C16 C06', req='', ens='ex(O, H), r.nat >= O.len(), cb(H, r), !nb(H, r), bv(H, r) == prodr(a as int, b as int)',
  at={'start': '''assert(forall|x: i64| #[trigger] (x & 1) == 0 <==> x % 2 == 0) by(bit_vector); if a <= 0 && b >= 0 { lemma_prodr_zero(a as int, b as int); } if a > b { } else if a > 0 { lemma_prodr_pos(a as int, b as int); } else if b < 0 { lemma_prodr_neg(a as int, b as int); lemma_prodr_pos(-b, -a); }'''})
L('binom', '''
/// binomial coefficients by Pascal's rule
pub open spec fn binom(n: int, k: int) -> int decreases n { if k < 0 || k > n || n < 0 { 0 } else if k == 0 || k == n { 1 } else { binom(n - 1, k - 1) + binom(n - 1, k) } }
pub proof fn lemma_binom(n: int, k: int) requires 0 <= k <= n ensures binom(n, k) * prodr(1, k) == prodr(n - k + 1, n) decreases n
{ if k == 0 { assert(prodr(1, 0) == 1); assert(prodr(n + 1, n) == 1); } else if k == n { assert(prodr(1, k) == 1 * prodr(1, k)); } else {
    lemma_binom(n - 1, k - 1); lemma_binom(n - 1, k); let f = prodr(1, k - 1); let a = binom(n - 1, k - 1); let b = binom(n - 1, k); let g = prodr(n - k + 1, n - 1);
    assert(prodr(1, k) == f * k); lemma_prodr_front(n - k, n - 1); assert(prodr(n - k, n - 1) == (n - k) * g); assert(prodr(n - k + 1, n) == g * n);
    assert(a * f == g); assert(b * (f * k) == (n - k) * g); assert((a + b) * (f * k) == g * n) by(nonlinear_arith) requires a * f == g, b * (f * k) == (n - k) * g; } }
pub proof fn lemma_binom_sym(n: int, k: int) requires 0 <= k <= n ensures binom(n, k) == binom(n, n - k) decreases n
{ if k > 0 && k < n { lemma_binom_sym(n - 1, k - 1); lemma_binom_sym(n - 1, k); } }
pub proof fn lemma_binom_nonneg(n: int, k: int) ensures binom(n, k) >= 0 decreases n { if k > 0 && k < n { lemma_binom_nonneg(n - 1, k - 1); lemma_binom_nonneg(n - 1, k); } }
''')
F(BI + 'binomial', 'bi_binomial', props='C16 C06', req='0 <= k_p <= n < 0x7fff_ffff_ffff_ffff', ens='ex(O, H), r.nat >= O.len(), cb(H, r), !nb(H, r), bv(H, r) == binom(n as int, k_p as int)',
  at={'start': 'assert((n >> 1) == n / 2) by(bit_vector) requires n >= 0; lemma_binom_sym(n as int, k_p as int);',
   'before bi_div_assign:0': 'lemma_binom(n as int, k as int); lemma_binom_nonneg(n as int, k as int); lemma_prodr_pos(1, k as int); let c = binom(n as int, k as int); let f = prodr(1, k as int); assert(c * f >= 0) by(nonlinear_arith) requires c >= 0, f >= 1; lemma_fundamental_div_mod_converse(c * f, f, c, 0);'})
