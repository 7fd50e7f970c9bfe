# ---- division and remainder
L('lemma_blen_mono', '''
pub proof fn lemma_blen_mono(a: int, b: int) requires a <= b ensures blen(a) <= blen(b), blen(b) >= 1 decreases b { if b > 1 { lemma_blen_mono(if a > 1 { a / 2 } else { a }, if a > 1 { b / 2 } else { if a <= b / 2 { b / 2 } else { a } }); } }''')
L('lemma_blen_shl', '''
/// B * 2^(blen(S)-blen(B)) and S have the same bit length
pub proof fn lemma_blen_shl(B: int, S: int) requires 1 <= B <= S
  ensures blen(S) >= blen(B), B * p2(blen(S) - blen(B)) < 2 * S, B * p2(blen(S) - blen(B)) >= 1
{ lemma_blen_mono(B, S); lemma_blen_ge(B); lemma_blen_ge(S); let s = blen(S) - blen(B); lemma_p2_pos(s); let q = p2(s); let t = p2(blen(B)); lemma_p2_add(s, blen(B)); lemma_p2_1(blen(S) - 1);
  assert(B * q < t * q) by(nonlinear_arith) requires B < t, q >= 1; assert(t * q == q * t) by(nonlinear_arith); assert(B * q >= 1) by(nonlinear_arith) requires B >= 1, q >= 1; }''')
L('lemma_half', '''
pub proof fn lemma_half(B: int, s: int) requires s >= 1 ensures (B * p2(s)) / p2(1) == B * p2(s - 1), 2 * (B * p2(s - 1)) == B * p2(s)
{ lemma_p2_0(); lemma_p2_1(s - 1); let a = B * p2(s - 1); let q = p2(s - 1); assert(B * (2 * q) == 2 * (B * q)) by(nonlinear_arith); }''')
L('lemma_modsub', '''
pub proof fn lemma_modsub(S: int, B: int, m: int) requires B >= 1 ensures (S - B * m) % B == S % B
{ let q = S / B; let r = S % B; lemma_fundamental_div_mod(S, B); lemma_mod_bound(S, B); assert(S - B * m == (q - m) * B + r) by(nonlinear_arith) requires S == B * q + r; lemma_fundamental_div_mod_converse(S - B * m, B, q - m, r); }''')
L('lemma_divq', '''
pub proof fn lemma_divq(A: int, q: int, B: int, r: int) requires A == q * B + r, 0 <= r < B ensures A / B == q, A % B == r { lemma_fundamental_div_mod_converse(A, B, q, r); }''')
DIVREQ = 'cn(H, slf), cn(H, rhs), !na(H, slf), !na(H, rhs), nv(H, rhs) != 0'
DIVZ = 'cn(H, slf), cn(H, rhs), !na(H, slf), !na(H, rhs), nv(H, rhs) == 0'
F(NAT + 'div_inner', 'div_inner', props='C03 C06', req=DIVREQ, zname='div_inner_z', zreq=DIVZ, zprops='C03',
  ens='fr(O, H, slf), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) / nv(O, rhs)',
  ghost=['A = nv(H, slf)', 'B = nv(H, rhs)'],
  at={'ret:0': 'lemma_val1(H[[slf]]); lemma_divq(A, 1, B, 0);', 'ret:1': 'lemma_val1(H[[slf]]); assert(0 * B == 0); lemma_divq(A, 0, B, A);',
      'ret:2': 'lemma_val1(H[[slf]]); lemma_blen_ge(A); lemma_blen_ge(B); lemma_p2_1(blen(A) - 1); assert(1 * B == B); lemma_divq(A, 1, B, A - B);',
      'before shl_inner:0': 'assert(H[[den]] =~= H[[rhs]]);',
      'before sub_inner:0': ('q0 = nv(h@, slf)', 'sh = shift as int', 'lemma_p2_pos(shift as int);'),
      'after shr_inner:0': 'if shift == 0 { lemma_p2_0(); assert(B * 1 == B); } lemma_half(B, shift as int);',
      'before u32_shl:0': 'lemma_p2_pos((shift % 32) as int); lemma_p2_0(); lemma_p2_lt((shift % 32) as int, 32);',
      'ret:3': 'lemma_divq(A, nv(H, slf), B, nv(H, sc));'},
  loops={0: dict(pre='lemma_val1(H[[slf]]); assert(0 * B == 0);',
           inv='''fr(h0, H, slf), slf != rhs, sc >= h0.len(), sc < one < den, den < H.len(), cn(H, slf), !na(H, slf), cn(H, sc), !na(H, sc), cn(H, one), A == nv(H, slf) * B + nv(H, sc), divisor_len == blen(B)''',
           ens='nv(H, sc) < B', dec='nv(H, sc)', ls='if nv(H, sc) >= B { lemma_blen_shl(B, nv(H, sc)); }',
           le='let p = p2(sh); let Q = nv(H, slf); assert(1 * p == p); assert((q0 + p) * B == q0 * B + B * p) by(nonlinear_arith); assert(B * p >= 1) by(nonlinear_arith) requires B >= 1, p >= 1; '),
         1: dict(pre='lemma_p2_0();', inv='''fr(hl0, H, den), den < H.len(), H.len() == hl0.len(), nv(H, sc) >= B, cn(H, den), !na(H, den), nv(H, den) == B * p2(shift as int)''', ens='nv(H, den) <= nv(H, sc)', dec='shift')})
F(NAT + 'rem_inner', 'rem_inner', props='C03 C06', req=DIVREQ, zname='rem_inner_z', zreq=DIVZ, zprops='C03',
  ens='fr(O, H, slf), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) % nv(O, rhs)',
  ghost=['A = nv(H, slf)', 'B = nv(H, rhs)'],
  at={'ret:0': 'lemma_val1(H[[slf]]); lemma_divq(A, 1, B, 0);', 'ret:1': 'assert(0 * B == 0); lemma_divq(A, 0, B, A);',
      'before shl_inner:0': 'assert(H[[den]] =~= H[[rhs]]);',
      'before shr_inner:0': 'if shift == 0 { lemma_p2_0(); assert(B * 1 == B); } lemma_half(B, shift as int);',
      'before sub_inner:0': ('S = nv(h@, slf)', 'D = nv(h@, den)', 'k = if partial_cmp_inner_2 == Ordering::Less { shift - 1 } else { shift as int }', 'lemma_p2_pos(k); let p = p2(k); assert(B * p >= 1) by(nonlinear_arith) requires B >= 1, p >= 1; lemma_modsub(S, B, p); assert(D == B * p); assert(1 <= D <= S);'),
      'ret:2': 'lemma_small_mod(nv(H, slf) as nat, B as nat);'},
  loops={0: dict(inv='''fr(h0, H, slf), slf != rhs, den >= h0.len(), den < H.len(), cn(H, slf), !na(H, slf), nv(H, slf) % B == A % B, divisor_len == blen(B)''',
           ens='nv(H, slf) < B', dec='nv(H, slf)', ls='if nv(H, slf) >= B { lemma_blen_shl(B, nv(H, slf)); }')})

L('lemma_rv_low', '''
pub proof fn lemma_rv_low(s: Seq<u32>, lo: int, n: int) requires n >= 0 ensures rv(s, lo, n + 1) == s[lo] + 0x1_0000_0000 * rv(s, lo + 1, n)
{ lemma_rv_split(s, lo, 1, n); lemma_step(s, lo, 0); assert(pw(1) == 0x1_0000_0000 * pw(0)); assert(s[lo] * 1 == s[lo]); assert(rv(s, lo, 0) == 0); assert(pw(0) == 1); }''')
L('lemma_mod_step', '''
/// one digit of a remainder computation in any radix R
pub proof fn lemma_mod_step(p: int, v: int, m: int, x: int, R: int) requires m >= 1, p == v % m ensures (p * R + x) % m == (v * R + x) % m
{ let q = v / m; lemma_fundamental_div_mod(v, m); lemma_mod_bound(v, m); assert(v * R + x == (p * R + x) - m * (-(q * R))) by(nonlinear_arith) requires v == m * q + p; lemma_modsub(p * R + x, m, -(q * R)); }''')
F(NAT + 'div_inner_basic', 'div_inner_basic', props='C03 C06', req='cn(H, slf), !na(H, slf), rhs != 0', zname='div_inner_basic_z', zreq='cn(H, slf), !na(H, slf), rhs == 0', zprops='C03',
  ens='fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) / rhs as int',
  loops={0: dict(inv='''fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == n0, n0 == h0[[slf]].len(), i == i0, pre < rhs_1, rhs_1 == rhs, forall|k: int| 0 <= k < n0 - i0 ==> H[[slf]][k] == h0[[slf]][k],
       rv(H[[slf]], n0 - i0, i0 as int) * rhs + pre == rv(h0[[slf]], n0 - i0, i0 as int)''', pre='assert(0 * rhs as int == 0);', ghost=['c0 = pre'],
    ls='let x = h0[[slf]][n0 - 1 - i0] as int; let d = rhs as int; let w = c0 * 0x1_0000_0000 + x; assert(w < d * 0x1_0000_0000); lemma_div_is_ordered(w, d * 0x1_0000_0000 - 1, d); lemma_fundamental_div_mod(w, d); lemma_mod_bound(w, d); assert(d * (w / d) < d * 0x1_0000_0000); assert(w / d < 0x1_0000_0000) by(nonlinear_arith) requires d * (w / d) < d * 0x1_0000_0000, d >= 1; lemma_div_pos_is_pos(w, d);',
    le='''let lo = n0 - i0 - 1; let n = i0 as int; let x = h0[[slf]][lo] as int; let d = rhs as int; let w = c0 * 0x1_0000_0000 + x; lemma_fundamental_div_mod(w, d); lemma_rv_low(H[[slf]], lo, n); lemma_rv_low(h0[[slf]], lo, n); lemma_rv_eq(H[[slf]], lo + 1, hl0[[slf]], lo + 1, n); let Y = rv(hl0[[slf]], lo + 1, n); let B = 0x1_0000_0000int; let q = w / d;
       assert((q + B * Y) * d == d * q + B * (Y * d)) by(nonlinear_arith);''')},
  at={'ret:0': 'lemma_val1(H[[slf]]); lemma_val1(h0[[slf]]);', 'after rotate_right:0': 'assert(H[[slf]] =~= ha0[[slf]]);',
      'before trim_head_zero:0': 'assert(H[[slf]] =~= ha0[[slf]]); let d = rhs as int; let q = nv(H, slf); lemma_divq(nv(h0, slf), q, d, pre as int);'})
F(NAT + 'rem_inner_basic', 'rem_inner_basic', props='C03 C06', req='cn(H, slf), !na(H, slf), rhs != 0', zname='rem_inner_basic_z', zreq='cn(H, slf), !na(H, slf), rhs == 0', zprops='C03',
  ens='fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) % rhs as int, H[[slf]].len() == 1',
  loops={0: dict(inv='''H == h0, n0 == h0[[slf]].len(), pre < rhs_1, rhs_1 == rhs, pre == rv(h0[[slf]], n0 - i0, i0 as int) % rhs as int''', pre='lemma_small_mod(0, rhs as nat);', ghost=['c0 = pre'],
    le='let lo = n0 - i0 - 1; let n = i0 as int; lemma_rv_low(h0[[slf]], lo, n); lemma_mod_step(c0 as int, rv(h0[[slf]], lo + 1, n), rhs as int, h0[[slf]][lo] as int, 0x1_0000_0000); lemma_mod_bound(rv(h0[[slf]], lo, n + 1), rhs as int);')},
  at={'ret:0': 'lemma_val1(H[[slf]]); lemma_val1(h0[[slf]]);', 'ret:1': 'lemma_val1(H[[slf]]);'})
F(NAT + 'rem_inner_u32', 'rem_inner_u32', props='C15 C21', pure=True, req='ok(H, slf), rhs != 0', ens='r == nv(H, slf) % rhs as int',
  loops={0: dict(inv='''n0 == H[[slf]].len(), r_v < rhs_1, rhs_1 == rhs, r_v == rv(H[[slf]], n0 - i0, i0 as int) % rhs as int''', pre='lemma_small_mod(0, rhs as nat);', ghost=['c0 = r_v'],
    le='let lo = n0 - i0 - 1; let n = i0 as int; let x = H[[slf]][lo]; assert(((c0 << 32) | (x as u64)) == c0 * 0x1_0000_0000 + x) by(bit_vector) requires c0 < 0x1_0000_0000; lemma_rv_low(H[[slf]], lo, n); lemma_mod_step(c0 as int, rv(H[[slf]], lo + 1, n), rhs as int, x as int, 0x1_0000_0000); lemma_mod_bound(rv(H[[slf]], lo, n + 1), rhs as int);')})
natop('Div', 'div', '', 'nv(H, X) == A / B', 'C03', 'div', req='B != 0')
natop('Div', 'div', 'u32', 'nv(H, X) == A / B as int', 'C03', 'div', req='B != 0')
natop('Rem', 'rem', '', 'nv(H, X) == A % B', 'C03', 'rem', req='B != 0')
natop('Rem', 'rem', 'u32', 'nv(H, X) == A % B as int', 'C03', 'rem', req='B != 0')

L('lemma_euclid', '''
/// Euclidean quotient and remainder, any sign of the divisor
pub proof fn lemma_euclid(a: int, b: int, q: int, r: int) requires a == q * b + r, 0 <= r, r < ab(b), b != 0 ensures a / b == q, a % b == r
{
  if b > 0 { lemma_fundamental_div_mod_converse(a, b, q, r); }
  else {
    let q2 = a / b; let r2 = a % b;
    assert(a == b * q2 + r2 && 0 <= r2 < -b) by(nonlinear_arith) requires q2 == a / b, r2 == a % b, b < 0;
    assert(b * (q2 - q) == r - r2) by(nonlinear_arith) requires a == q * b + r, a == b * q2 + r2;
    if q2 > q { assert(b * (q2 - q) <= b) by(nonlinear_arith) requires q2 - q >= 1, b < 0; } else if q2 < q { assert(b * (q2 - q) >= -b) by(nonlinear_arith) requires q2 - q <= -1, b < 0; }
  }
}''')
L('lemma_tqr', '''
/// what truncating division means
pub proof fn lemma_tqr(a: int, b: int) requires b != 0 ensures a == tq(a, b) * b + tr(a, b), ab(tr(a, b)) < ab(b), tr(a, b) != 0 ==> (tr(a, b) < 0) == (a < 0), ab(tq(a, b)) == ab(a) / ab(b), ab(tr(a, b)) == ab(a) % ab(b), ab(tq(a, b)) >= 0
{ let q = ab(a) / ab(b); let r = ab(a) % ab(b); lemma_fundamental_div_mod(ab(a), ab(b)); lemma_mod_bound(ab(a), ab(b)); lemma_div_pos_is_pos(ab(a), ab(b)); let c = ab(b); assert((-q) * (-c) == q * c && (-q) * c == -(q * c) && q * (-c) == -(q * c)) by(nonlinear_arith); assert(c * q == q * c) by(nonlinear_arith); }''')
L('lemma_tr_euclid', '''
pub proof fn lemma_tr_euclid(a: int, b: int) requires b != 0
  ensures a % b == (if tr(a, b) < 0 { tr(a, b) + ab(b) } else { tr(a, b) }), a / b == (if tr(a, b) < 0 { if b > 0 { tq(a, b) - 1 } else { tq(a, b) + 1 } } else { tq(a, b) }), 0 <= a % b < ab(b), a == (a / b) * b + a % b
{ lemma_tqr(a, b); let q = tq(a, b); let r = tr(a, b); if r < 0 { if b > 0 { assert((q - 1) * b == q * b - b) by(nonlinear_arith); lemma_euclid(a, b, q - 1, r + ab(b)); } else { assert((q + 1) * b == q * b + b) by(nonlinear_arith); lemma_euclid(a, b, q + 1, r + ab(b)); } } else { lemma_euclid(a, b, q, r); } }''')
DZ = 'nb(H, rhs) || B != 0'
NNB = NN + ' if nv(O, rhs.nat) != 0 && !nb(O, *old(slf)) && !nb(O, rhs) { lemma_tqr(bv(O, *old(slf)), bv(O, rhs)); }'
biop('Div', 'div', 'div_inner', 'bv(H, X) == tq(A, B)', 'C03', rawreq=DZ, extra=dict(at={'ret': NNB}))
biop('Rem', 'rem', 'rem_inner', 'bv(H, X) == tr(A, B) && (A == tq(A, B) * B + tr(A, B) && ab(tr(A, B)) < ab(B) && (tr(A, B) != 0 ==> (tr(A, B) < 0) == (A < 0)))', 'C03', rawreq=DZ, extra=dict(at={'ret': NNB}))
def euclid(nm, post):
    r0 = 'cb(H, %s), cb(H, n), nb(H, n) || bv(H, n) != 0'; z0 = 'cb(H, %s), cb(H, n), !nb(H, n), bv(H, n) == 0'; a = '*old(slf)'
    nan = '(nb(O, %s) || nb(O, n))'
    asg = 'fr(O, H, old(slf).nat), own(O, final(slf).nat, old(slf).nat), cb(H, *final(slf)), nb(H, *final(slf)) == {n}, !{n} ==> bv(H, *final(slf)) == {p}'.format(n=nan % a, p=post.format('bv(O, *old(slf))', 'bv(O, n)'))
    h = 'if !nb(O, n) && !nb(O, *old(slf)) { lemma_tr_euclid(bv(O, *old(slf)), bv(O, n)); }'
    F(BI + nm + '_inner', 'bi_' + nm + '_inner', props='C03 C06 C07 C08', req=r0 % a, ens=asg, zname='bi_%s_inner_z' % nm, zreq=z0 % a, zprops='C03', at={'ret': h, 'after bi_rem_inner:0': 'if old(slf).nat == n.nat && !nb(h0, n) { lemma_divq(ab(bv(h0, *old(slf))), 1, ab(bv(h0, n)), 0); }'})
    F(BI + nm + '_assign', 'bi_' + nm + '_assign', props='C03 C06 C07 C08', req=r0 % a, ens=asg, zname='bi_%s_assign_z' % nm, zreq=z0 % a, zprops='C03')
    F(BI + nm, 'bi_' + nm, props='C03 C06 C07 C08', req=r0 % 'slf', zname='bi_%s_z' % nm, zreq=z0 % 'slf', zprops='C03',
      ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == {n}, !{n} ==> bv(H, r) == {p}'.format(n=nan % 'slf', p=post.format('bv(O, slf)', 'bv(O, n)')))
euclid('rem_euclid', '{0} % {1}')
euclid('div_euclid', '{0} / {1}')
