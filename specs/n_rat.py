# ---- rationals
L('cq', '''
/// a well formed rational: lowest terms, positive denominator (0 is 0/1), or NaN
pub open spec fn cq(h: Hp, x: Rat) -> bool { x.a.nat != x.b.nat && cb(h, x.a) && cb(h, x.b) && !nb(h, x.b) && bv(h, x.b) >= 1 && (!nb(h, x.a) ==> isgcd(1, bv(h, x.a), bv(h, x.b))) }
pub open spec fn nq(h: Hp, x: Rat) -> bool { nb(h, x.a) }
pub open spec fn qn(h: Hp, x: Rat) -> int { bv(h, x.a) }
pub open spec fn qd(h: Hp, x: Rat) -> int { bv(h, x.b) }
/// x denotes n / d
pub open spec fn qis(h: Hp, x: Rat, n: int, d: int) -> bool { qn(h, x) * d == n * qd(h, x) }
pub proof fn lemma_isgcd_neg(d: int, a: int, b: int) requires isgcd(d, a, b) ensures isgcd(d, -a, b), isgcd(d, a, -b), isgcd(d, b, a)
{ lemma_dvd_neg(d, a); lemma_dvd_neg(d, b); assert forall|c: int| #![trigger dvd(c, d)] dvd(c, -a) && dvd(c, b) implies dvd(c, d) by { lemma_dvd_neg(c, a); } assert forall|c: int| #![trigger dvd(c, d)] dvd(c, a) && dvd(c, -b) implies dvd(c, d) by { lemma_dvd_neg(c, b); } }
pub proof fn lemma_isgcd_1(a: int) ensures isgcd(1, a, 1), isgcd(1, 1, a) { lemma_dvd_neg(1, a); lemma_dvd_neg(1, 1); }
/// dividing by the gcd leaves lowest terms
pub proof fn lemma_reduce(a: int, b: int, d: int, x: int, y: int) requires gcr(a, b, d, x, y), a >= 1, b >= 1
  ensures d >= 1, a == d * (a / d), b == d * (b / d), isgcd(1, a / d, b / d), a / d >= 1, b / d >= 1, (a / d) * b == a * (b / d), (-(a / d)) * b == (-a) * (b / d), d == 1 ==> a / d == a && b / d == b
{ reveal(gcr); let k = lemma_dvd_get(d, a); let l = lemma_dvd_get(d, b); assert(d != 0) by { assert(0 * k == 0); } lemma_mul_is_commutative(d, k); lemma_mul_is_commutative(d, l); lemma_fundamental_div_mod_converse(a, d, k, 0); lemma_fundamental_div_mod_converse(b, d, l, 0);
  assert(k >= 1) by(nonlinear_arith) requires a == d * k, a >= 1, d >= 1; assert(l >= 1) by(nonlinear_arith) requires b == d * l, b >= 1, d >= 1;
  assert(d * (k * x + l * y) == d) by(nonlinear_arith) requires a == d * k, b == d * l, a * x + b * y == d;
  assert(k * x + l * y == 1) by(nonlinear_arith) requires d * (k * x + l * y) == d, d >= 1; lemma_dvd_neg(1, k); lemma_dvd_neg(1, l); lemma_isgcd(1, k, l, x, y);
  assert(k * (d * l) == (d * k) * l) by(nonlinear_arith); assert((-k) * b == -(k * b) && (-a) * l == -(a * l)) by(nonlinear_arith); if d == 1 { lemma_mul_basics(k); lemma_mul_basics(l); } }
''')
L('lemma_mulsame', '''
pub proof fn lemma_mulsame(a1: int, b1: int, a2: int, b2: int, x: int, y: int) requires x * (b1 * b1) == (a1 * a1) * y, a1 * b2 == a2 * b1, b1 >= 1 ensures x * (b1 * b2) == (a1 * a2) * y
{ let p = x * (b1 * b2) - (a1 * a2) * y;
  assert((x * (b1 * b2)) * b1 == (x * (b1 * b1)) * b2) by(nonlinear_arith); assert(((a1 * a1) * y) * b2 == (a1 * b2) * (a1 * y)) by(nonlinear_arith); assert((a2 * b1) * (a1 * y) == ((a1 * a2) * y) * b1) by(nonlinear_arith);
  assert(p * b1 == 0) by(nonlinear_arith) requires p == x * (b1 * b2) - (a1 * a2) * y, (x * (b1 * b2)) * b1 == ((a1 * a2) * y) * b1; assert(p == 0) by(nonlinear_arith) requires p * b1 == 0, b1 >= 1; }
pub proof fn lemma_signs(a1: int, b2: int, a2: int, b1: int) requires b1 >= 1, b2 >= 1 ensures (a1 < 0) == (a1 * b2 < 0), (a2 < 0) == (a2 * b1 < 0), ab(a1 * b2) == ab(a1) * b2, ab(a2 * b1) == ab(a2) * b1
{ assert((a1 < 0) == (a1 * b2 < 0)) by(nonlinear_arith) requires b2 >= 1; assert((a2 < 0) == (a2 * b1 < 0)) by(nonlinear_arith) requires b1 >= 1; assert((-a1) * b2 == -(a1 * b2) && (-a2) * b1 == -(a2 * b1)) by(nonlinear_arith); }
''')
QF = lambda h, x: 'cq(%s, %s)' % (h, x)
FRESH = 'ex(O, H), r.a.nat >= O.len(), r.b.nat >= O.len(), r.a.nat != r.b.nat, cq(H, r)'
F(RAT + 'norm', 'rat_norm', props='C17', req='cn(H, old(slf).a.nat), cn(H, old(slf).b.nat), !na(H, old(slf).b.nat), nv(H, old(slf).b.nat) >= 1, old(slf).a.nat != old(slf).b.nat',
  ens='fr2(O, H, old(slf).a.nat, old(slf).b.nat), final(slf).a.nat == old(slf).a.nat, own(O, final(slf).b.nat, old(slf).b.nat), cq(H, *final(slf)), nq(H, *final(slf)) == na(O, old(slf).a.nat), !na(O, old(slf).a.nat) ==> qis(H, *final(slf), bv(O, old(slf).a), nv(O, old(slf).b.nat)), final(slf).b.sign == BISign::Natural || final(slf).b.nat == old(slf).b.nat',
  at={'start': 'lemma_isgcd_1(0); lemma_isgcd_1(1); let b = nv(H, slf.b.nat); assert(0 * b == 0 && 0 * 1 == 0); lemma_nv_nonneg(H, slf.a.nat);',
      'after bi_gcd:0': 'lemma_reduce(nv(O, old(slf).a.nat), nv(O, old(slf).b.nat), bv(H, bi_gcd_0.0), bv(H, bi_gcd_0.1), bv(H, bi_gcd_0.2)); lemma_isgcd_neg(1, nv(O, old(slf).a.nat) / bv(H, bi_gcd_0.0), nv(O, old(slf).b.nat) / bv(H, bi_gcd_0.0));',
      })
F(RAT + 'is_nan', 'rat_is_nan', props='C17 C07', req='cq(H, slf)', pure=True, ens='r == nq(H, slf)')
F(RAT + 'nan', 'rat_nan', props='C17 C07', ens=FRESH + ', nq(H, r)', at={'ret': 'lemma_isgcd_1(0);'})
F(RAT + 'deep_clone', 'rat_deep_clone', props='C17 C08', req='cq(H, slf)', ens=FRESH + ', nq(H, r) == nq(O, slf), qn(H, r) == qn(O, slf), qd(H, r) == qd(O, slf)')
F(RAT + 'from_frac', 'rat_from_frac', props='C17', ens='ex(O, H), r.is_err() == (denominator == 0), r.is_ok() ==> cq(H, r->Ok_0) && !nq(H, r->Ok_0) && qis(H, r->Ok_0, numerator as int, denominator as int)', at={'after rat_norm:0': 'let n = numerator as int; let d = denominator as int; let zn = bv(H, z.a); let zd = bv(H, z.b); assert(zn * (-d) == -(zn * d) && (-n) * zd == -(n * zd)) by(nonlinear_arith);'})
F(RAT + 'from_frac_bigint', 'rat_from_frac_bigint', props='C17 C07 C08', req='cb(H, numerator), cb(H, denominator)',
  ens='ex(O, H), r.is_err() == (!nb(O, numerator) && !nb(O, denominator) && bv(O, denominator) == 0), r.is_ok() ==> cq(H, r->Ok_0) && nq(H, r->Ok_0) == (nb(O, numerator) || nb(O, denominator)) && (nq(H, r->Ok_0) || qis(H, r->Ok_0, bv(O, numerator), bv(O, denominator)))', at={'after rat_norm:0': 'let n = bv(O, numerator); let d = bv(O, denominator); let zn = bv(H, z.a); let zd = bv(H, z.b); assert(zn * (-d) == -(zn * d) && (-n) * zd == -(n * zd)) by(nonlinear_arith);'})
F(RAT + 'abs', 'rat_abs', props='C17 C07 C08', req='cq(H, slf)', ens=FRESH + ', nq(H, r) == nq(O, slf), !nq(O, slf) ==> qn(H, r) == ab(qn(O, slf)) && qd(H, r) == qd(O, slf)', at={'ret': 'lemma_nv_nonneg(O, slf.a.nat); if !nq(O, slf) { lemma_isgcd_neg(1, qn(O, slf), qd(O, slf)); }'})
F(RAT + 'inv', 'rat_inv', props='C17 C07 C08', req='cq(H, slf)', ens='ex(O, H), r.is_err() == (!nq(O, slf) && qn(O, slf) == 0), r.is_ok() ==> cq(H, r->Ok_0) && nq(H, r->Ok_0) == nq(O, slf) && (nq(O, slf) || qis(H, r->Ok_0, qd(O, slf), qn(O, slf)))',
  at={'ret': 'lemma_nv_nonneg(O, slf.a.nat); lemma_nv_nonneg(O, slf.b.nat); let n = qn(O, slf); let d = qd(O, slf); if !nq(O, slf) { lemma_isgcd_neg(1, n, d); lemma_isgcd_neg(1, d, n); lemma_isgcd_neg(1, -n, d); assert((-d) * n == d * (-n)) by(nonlinear_arith); } '})
F(RAT + 'signnum', 'rat_signnum', props='C17 C07', req='cq(H, slf)', ens='ex(O, H), r == (if nq(O, slf) { None } else if qn(O, slf) < 0 { Some(-1isize) } else if qn(O, slf) == 0 { Some(0isize) } else { Some(1isize) })')
F(RAT + 'is_integer', 'rat_is_integer', props='C17 C07', req='cq(H, slf)', ens='ex(O, H), r == (if nq(O, slf) { None } else { Some(qn(O, slf) == 0 || qd(O, slf) == 1) })', at={'ret': 'lemma_nv_nonneg(O, slf.a.nat);'})
F(RAT + 'numerator', 'rat_numerator', props='C17', pure=True, req='cq(H, slf)', ens='r == slf.a')
F(RAT + 'denominator', 'rat_denominator', props='C17', pure=True, req='cq(H, slf)', ens='r == slf.b')
F(RAT + 'clear', 'rat_clear', props='C17 C07', req='cq(H, *old(slf))', ens='fr(O, H, old(slf).a.nat), final(slf).a == old(slf).a, final(slf).b == old(slf).b, cq(H, *final(slf)), nq(H, *final(slf))')
F(RAT + 'mul_denom', 'rat_mul_denom', props='C17', req='cn(H, x), cn(H, y), !na(H, x), !na(H, y), nv(H, x) >= 1, nv(H, y) >= 1', ens='ex(O, H), r >= O.len(), cn(H, r), !na(H, r), nv(H, r) == nv(O, x) * nv(O, y), nv(H, r) >= 1', at={'ret': 'let a = nv(O, x); let b = nv(O, y); assert(a * b >= 1) by(nonlinear_arith) requires a >= 1, b >= 1; if a == 1 { assert(a * b == b) by(nonlinear_arith) requires a == 1; } if b == 1 { assert(a * b == a) by(nonlinear_arith) requires b == 1; }'})
F(RAT + 'scale_denom', 'rat_scale_denom', props='C17', req='cb(H, x), cn(H, f), !nb(H, x), !na(H, f), nv(H, f) >= 1', ens='ex(O, H), r.nat >= O.len(), cb(H, r), !nb(H, r), bv(H, r) == bv(O, x) * nv(O, f), r.sign == x.sign, nv(H, r.nat) == nv(O, x.nat) * nv(O, f), nv(H, r.nat) == 0 <==> nv(O, x.nat) == 0',
  at={'ret': 'let a = nv(O, x.nat); let b = nv(O, f); lemma_nv_nonneg(O, x.nat); assert((-a) * b == -(a * b)) by(nonlinear_arith); assert(a >= 1 ==> a * b >= 1) by(nonlinear_arith) requires b >= 1; assert(0 * b == 0); if b == 1 { assert(a * b == a && (-a) * b == -a) by(nonlinear_arith) requires b == 1; }'})
CR = 'qn(O, slf) * qd(O, {o}) - qn(O, {o}) * qd(O, slf)'.format(o='other')
F(RAT + 'cmp_inner', 'rat_cmp_inner', props='C17 C07', req='cq(H, slf), cq(H, other)', ens='ex(O, H), r == (if nq(O, slf) || nq(O, other) { None } else if %s == 0 { Some(0isize) } else if %s < 0 { Some(-1isize) } else { Some(1isize) })' % (CR, CR))
QB = 'cq(H, slf), cq(H, other), !nq(H, slf), !nq(H, other)'
AN, AD, BN, BD = 'qn(O, slf)', 'qd(O, slf)', 'qn(O, other)', 'qd(O, other)'
F(RAT + 'add_inner', 'rat_add_inner', props='C17', req=QB, ens=FRESH + ', !nq(H, r), qis(H, r, {0} * {3} + {2} * {1}, {1} * {3})'.format(AN, AD, BN, BD))
F(RAT + 'sub_inner', 'rat_sub_inner', props='C17', req=QB, ens=FRESH + ', !nq(H, r), qis(H, r, {0} * {3} - {2} * {1}, {1} * {3})'.format(AN, AD, BN, BD))
F(RAT + 'mul_inner', 'rat_mul_inner', props='C17', req='cq(H, slf), cq(H, other)', ens=FRESH + ', nq(H, r) == (nq(O, slf) || nq(O, other)), !nq(H, r) ==> qis(H, r, {0} * {2}, {1} * {3})'.format(AN, AD, BN, BD),
  at={'start': 'lemma_nv_nonneg(H, slf.b.nat);', 'before rat_norm:0': 'let a1 = qn(O, slf); let b1 = qd(O, slf); let a2 = qn(O, other); let b2 = qd(O, other); assert(b1 * b1 >= 1 && b1 * b2 >= 1) by(nonlinear_arith) requires b1 >= 1, b2 >= 1;',
   'ret': 'let a1 = qn(O, slf); let b1 = qd(O, slf); let a2 = qn(O, other); let b2 = qd(O, other); let x = qn(H, z); let y = qd(H, z); if !nq(H, z) && x * (b1 * b1) == (a1 * a1) * y && a1 * b2 - a2 * b1 == 0 { lemma_mulsame(a1, b1, a2, b2, x, y); }'})
F(RAT + 'div_inner', 'rat_div_inner', props='C17', req=QB + ', qn(H, other) != 0', zname='rat_div_inner_z', zreq=QB + ', qn(H, other) == 0', zprops='C17', ens=FRESH + ', !nq(H, r), qis(H, r, {0} * {3}, {1} * {2})'.format(AN, AD, BN, BD),
  at={'before rat_norm:0': 'lemma_nv_nonneg(O, slf.a.nat); lemma_nv_nonneg(O, other.a.nat);', 'ret': 'let x = qn(H, z); let y = qd(H, z); let n = AN * BD; let d = BN * AD; let a1 = AN; let b1 = AD; let a2 = BN; let b2 = BD; assert(x * (-d) == -(x * d) && (-n) * y == -(n * y) && b1 * a2 == a2 * b1) by(nonlinear_arith) requires d == a2 * b1; lemma_signs(a1, b2, a2, b1);'.replace('AN', AN).replace('AD', AD).replace('BN', BN).replace('BD', BD)})

def ratop(tr, m, post, z=False):
    """operator and op-assign; post over AN AD BN BD"""
    P = lambda a, b: post.replace('AN', 'qn(O, %s)' % a).replace('AD', 'qd(O, %s)' % a).replace('BN', 'qn(O, %s)' % b).replace('BD', 'qd(O, %s)' % b)
    for asg in (0, 1):
        a = '*old(slf)' if asg else 'slf'; x = '*final(slf)' if asg else 'r'
        nan = 'nq(%s, ' + a + ') || nq(%s, rhs)'
        ens = ('fr(O, H, old(slf).a.nat), own(O, final(slf).a.nat, old(slf).a.nat), own(O, final(slf).b.nat, old(slf).b.nat)' if asg else 'ex(O, H), r.a.nat >= O.len(), r.b.nat >= O.len()')
        ens += ', cq(H, {x}), nq(H, {x}) == ({n}), !nq(H, {x}) ==> qis(H, {x}, {p})'.format(x=x, n=nan % ('O', 'O'), p=P(a, 'rhs'))
        req = 'cq(H, %s), cq(H, rhs)' % a; nm = 'rat_' + m + ('_assign' if asg else '')
        kw = dict(zname=nm + '_z', zprops='C17', zreq=req + ', !(%s), qn(H, rhs) == 0' % (nan % ('H', 'H'))) if z else {}
        if z: req += ', %s || qn(H, rhs) != 0' % (nan % ('H', 'H'))
        F(R + 'core::ops::arith::%s%s>::%s%s' % (tr, 'Assign' if asg else '', m, '_assign' if asg else ''), nm, props='C17 C07 C08', req=req, ens=ens, **kw)
ratop('Add', 'add', 'AN * BD + BN * AD, AD * BD')
ratop('Sub', 'sub', 'AN * BD - BN * AD, AD * BD')
ratop('Mul', 'mul', 'AN * BN, AD * BD')
ratop('Div', 'div', 'AN * BD, AD * BN', True)
F(R + 'core::cmp::PartialEq>::eq', 'rat_eq', props='C17 C07', req='cq(H, slf), cq(H, other)', ens='ex(O, H), r == (!nq(O, slf) && !nq(O, other) && %s * %s == %s * %s)' % (AN, BD, BN, AD))
F(R + 'core::cmp::PartialOrd>::partial_cmp', 'rat_partial_cmp', props='C17 C07', req='cq(H, slf), cq(H, other)', ens='ex(O, H), r == (if nq(O, slf) || nq(O, other) { None } else { Some(ordv(%s * %s, %s * %s)) })' % (AN, BD, BN, AD))
F(R + 'core::ops::arith::Neg>::neg', 'rat_neg', props='C17 C07 C08', req='cq(H, slf)', ens=FRESH + ', nq(H, r) == nq(O, slf), !nq(H, r) ==> qn(H, r) == -qn(O, slf) && qd(H, r) == qd(O, slf)', at={'ret': 'if !nq(O, slf) { lemma_isgcd_neg(1, qn(O, slf), qd(O, slf)); }'})
for t in ('u8', 'u16', 'u32', 'usize', 'u64', 'u128', 'i8', 'i16', 'i32', 'isize', 'i64', 'i128'):
    F(R + 'core::convert::From<%s>>::from' % t, 'rat_from_' + t, props='C17', ens=FRESH + ', !nq(H, r), qn(H, r) == n, qd(H, r) == 1', at={'ret': 'lemma_isgcd_1(n as int);'})
F(R + 'core::convert::From<bigint::nat::Nat>>::from', 'rat_from_nat', props='C17 C07 C08', req='cn(H, n)', ens=FRESH + ', nq(H, r) == na(O, n), qn(H, r) == nv(O, n), qd(H, r) == 1', at={'ret': 'lemma_isgcd_1(nv(O, n));'})
F(R + 'core::convert::From<bigint::bigint::BigInt>>::from', 'rat_from_bigint', props='C17 C07 C08', req='cb(H, n)', ens=FRESH + ', nq(H, r) == nb(O, n), qn(H, r) == bv(O, n), qd(H, r) == 1', at={'ret': 'lemma_isgcd_1(bv(O, n));'})
