# ---- Jacobi symbol, modular square roots.  The number theory is stated as axioms here and proved in lemmas/number_theory.lean (Lean 4, Mathlib's jacobiSym).
L('js', '''
pub uninterp spec fn js(a: int, b: int) -> int;
pub open spec fn prime(p: int) -> bool { p >= 2 && forall|d: int| 2 <= d < p ==> #[trigger] (p % d) != 0 }
#[verifier::external_body] pub proof fn axiom_js_range(a: int, b: int) ensures js(a, b) == -1 || js(a, b) == 0 || js(a, b) == 1 { }
#[verifier::external_body] pub proof fn axiom_js_one(a: int) ensures js(a, 1) == 1 { }
#[verifier::external_body] pub proof fn axiom_js_mod(a: int, b: int) requires b > 0 ensures js(a % b, b) == js(a, b) { }
#[verifier::external_body] pub proof fn axiom_js_zero(b: int) requires b > 1 ensures js(0, b) == 0 { }
#[verifier::external_body] pub proof fn axiom_js_two(a: int, b: int) requires b > 0, b % 2 == 1 ensures js(2 * a, b) == (if b % 8 == 1 || b % 8 == 7 { js(a, b) } else { -js(a, b) }) { }
#[verifier::external_body] pub proof fn axiom_js_rec(a: int, b: int) requires a > 0, b > 0, a % 2 == 1, b % 2 == 1 ensures js(a, b) == (if a % 4 == 3 && b % 4 == 3 { -js(b, a) } else { js(b, a) }) { }
#[verifier::external_body] pub proof fn axiom_euler(a: int, p: int) requires prime(p), p % 2 == 1 ensures (ip(a, (p - 1) / 2) - js(a, p)) % p == 0 { }
#[verifier::external_body] pub proof fn axiom_js_nonsq(a: int, p: int, y: int) requires prime(p), js(a, p) == -1 ensures (y * y - a) % p != 0 { }
#[verifier::external_body] pub proof fn axiom_js_pzero(a: int, p: int) requires prime(p), js(a, p) == 0 ensures a % p == 0 { }
#[verifier::external_body] pub proof fn axiom_pm1(z: int, p: int) requires prime(p), (z * z - 1) % p == 0 ensures (z - 1) % p == 0 || (z + 1) % p == 0 { }
#[verifier::external_body] pub proof fn axiom_nonres(p: int) requires prime(p), p % 2 == 1 ensures exists|n: int| 2 <= n < p && #[trigger] js(n, p) == -1 { }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
/// js(a, b) == j * js(a / 2^s, b)
pub open spec fn j2(b: int, s: int) -> int { if s % 2 == 1 && (b % 8 == 3 || b % 8 == 5) { -1 } else { 1 } }
pub open spec fn sg(j: int, x: int) -> int { if j == 1 { x } else { -x } }
pub proof fn lemma_js_shift(a: int, q: int, b: int, s: int) requires s >= 0, b > 0, b % 2 == 1, a == q * p2(s) ensures js(a, b) == sg(j2(b, s), js(q, b)) decreases s
{ if s == 0 { lemma_p2_0(); } else { lemma_p2_1(s - 1); let a2 = q * p2(s - 1); assert(a == 2 * a2) by(nonlinear_arith) requires a == q * p2(s), p2(s) == 2 * p2(s - 1), a2 == q * p2(s - 1); lemma_js_shift(a2, q, b, s - 1); axiom_js_two(a2, b); } }
pub proof fn lemma_low3(s: Seq<u32>) requires s.len() > 0 ensures val(s) % 2 == s[0] % 2, val(s) % 4 == s[0] % 4, val(s) % 8 == s[0] % 8, s[0] & 1 == s[0] % 2, s[0] & 3 == s[0] % 4, s[0] & 7 == s[0] % 8
{ lemma_modd(s); let x = s[0]; assert(x & 1 == x % 2 && x & 3 == x % 4 && x & 7 == x % 8) by(bit_vector);
  let n = s.len() as int; lemma_rv_split(s, 0, 1, n - 1); lemma_val1(s.take(1)); lemma_rv_eq(s.take(1), 0, s, 0, 1); assert(pw(1) == 0x1_0000_0000 * pw(0) && pw(0) == 1); let k = rv(s, 1, n - 1);
  let v = val(s); let y = x as int; assert(v == y + 0x1_0000_0000 * k); let k4 = 0x4000_0000 * k; let k8 = 0x2000_0000 * k; lemma_mod_multiples_vanish(k4, x as int, 4); lemma_mod_multiples_vanish(k8, x as int, 8); assert(v == 4 * k4 + y) by(nonlinear_arith) requires v == y + 0x1_0000_0000 * k, k4 == 0x4000_0000 * k; assert(v == 8 * k8 + y) by(nonlinear_arith) requires v == y + 0x1_0000_0000 * k, k8 == 0x2000_0000 * k; assert(v % 4 == (x as int) % 4); assert(v % 8 == (x as int) % 8); }
''')
F(BI + 'jacobi', 'jacobi', props='C15 C07 C08',
  req='cb(H, slf), cb(H, b), nb(H, slf) || nb(H, b) || bv(H, b) == 0 || iabs(bv(H, b)) % 2 == 1',
  ens='''ex(O, H), nb(O, slf) || nb(O, b) ==> r is None, !nb(O, slf) && !nb(O, b) && bv(O, b) == 0 ==> r is None,
     !nb(O, slf) && !nb(O, b) && bv(O, b) > 0 ==> r is Some && r->0 == js(bv(O, slf), bv(O, b)),
     !nb(O, slf) && !nb(O, b) && bv(O, b) < 0 ==> r is Some && r->0 == sg(if bv(O, slf) < 0 { -1int } else { 1int }, js(bv(O, slf), -bv(O, b)))''',
  ghost=['A = bv(h@, slf)', 'B = iabs(bv(h@, b))', 'J = if bv(h@, b) < 0 && bv(h@, slf) < 0 { -1int } else { 1int }', 'mut a0: int = 0', 'mut c0: int = 0'],
  loops={0: dict(inv='''ex(h0, H), h0.len() <= a_1.nat < H.len(), h0.len() <= b_2.nat < H.len(), a_1.nat != b_2.nat, cb(H, a_1), cb(H, b_2), !nb(H, a_1), !nb(H, b_2), bv(H, b_2) > 0, bv(H, b_2) % 2 == 1,
       j == 1 || j == -1, sg(J, js(A, B)) == sg(j as int, js(bv(H, a_1), bv(H, b_2)))''', dec='bv(H, b_2)',
     ls='lemma_low3(H[[b_2.nat]]); axiom_js_one(bv(H, a_1)); if bv(H, b_2) > 1 { axiom_js_zero(bv(H, b_2)); }')},
  at={'start': 'assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by(bit_vector); if !nb(h0, b) { lemma_iszero(h0[[b.nat]]); }',
    'before bi_rem_euclid_inner:0': 'a0 = bv(H, a_1);',
    'after bi_rem_euclid_inner:0': 'axiom_js_mod(a0, bv(H, b_2)); lemma_mod_bound(a0, bv(H, b_2)); c0 = bv(H, a_1);',
    'after trailling_zeros:0': 'let s = trailling_zeros_0; let P = p2(s as int); lemma_p2_pos(s as int); lemma_fundamental_div_mod(c0, P); let q = c0 / P; assert(c0 == q * P) by(nonlinear_arith) requires c0 == P * q + 0; lemma_js_shift(c0, q, bv(H, b_2), s as int); assert(q <= c0) by(nonlinear_arith) requires c0 == q * P, q >= 0, P >= 1;',
    'after bi_shr_inner:0': 'lemma_low3(H[[b_2.nat]]); lemma_low3(H[[a_1.nat]]); axiom_js_rec(bv(H, a_1), bv(H, b_2));',
  })

L('lemma_ts', '''
/// y is a square root of x modulo p
pub open spec fn sq(y: int, x: int, p: int) -> bool { 0 <= y < p && (y * y - x) % p == 0 }
pub proof fn lemma_me_sub(a: int, b: int, P: int) requires P > 0 ensures me(a, b, P) == ((a - b) % P == 0)
{ reveal(me); lemma_fundamental_div_mod(a, P); lemma_fundamental_div_mod(b, P); lemma_mod_bound(a, P); lemma_mod_bound(b, P);
  if a % P == b % P { let k = a / P - b / P; assert(a - b == P * k) by(nonlinear_arith) requires a == P * (a / P) + a % P, b == P * (b / P) + b % P, a % P == b % P, k == a / P - b / P; lemma_fundamental_div_mod_converse(a - b, P, k, 0); }
  if (a - b) % P == 0 { lemma_fundamental_div_mod(a - b, P); let k = (a - b) / P; let q = b / P; let r = b % P; assert(a == P * (q + k) + r) by(nonlinear_arith) requires a - b == P * k + 0, b == P * q + r; lemma_fundamental_div_mod_converse(a, P, q + k, r); } }
pub proof fn lemma_me_rem(a: int, P: int) requires P > 0 ensures me(a % P, a, P), me(a, a % P, P), 0 <= a % P < P { reveal(me); lemma_mulmod(a, 1, P); lemma_mod_bound(a, P); }
pub proof fn lemma_me_tr(a: int, b: int, c: int, P: int) requires me(a, b, P), me(b, c, P) ensures me(a, c, P), me(c, a, P) { reveal(me); }
pub proof fn lemma_me_sym(a: int, b: int, P: int) requires me(a, b, P) ensures me(b, a, P) { reveal(me); }
pub proof fn lemma_me_ip(a: int, b: int, n: int, P: int) requires me(a, b, P), P > 0 ensures me(ip(a, n), ip(b, n), P) { reveal(me); lemma_ip_mod(a, n, P); lemma_ip_mod(b, n, P); }
pub proof fn lemma_ip_ip(a: int, m: int, n: int) requires m >= 0, n >= 0 ensures ip(ip(a, m), n) == ip(a, m * n) decreases n
{ if n == 0 { assert(m * 0 == 0); } else { lemma_ip_ip(a, m, n - 1); assert(m * (n - 1) >= 0) by(nonlinear_arith) requires m >= 0, n >= 1; lemma_ip_add(a, m, m * (n - 1)); assert(m * n == m + m * (n - 1)) by(nonlinear_arith); } }
pub proof fn lemma_ip_prod(a: int, b: int, n: int) requires n >= 0 ensures ip(a * b, n) == ip(a, n) * ip(b, n) decreases n
{ if n > 0 { lemma_ip_prod(a, b, n - 1); let u = ip(a, n - 1); let v = ip(b, n - 1); assert((a * b) * (u * v) == (a * u) * (b * v)) by(nonlinear_arith); } }
pub proof fn lemma_eul(x: int, P: int) requires prime(P), P % 2 == 1 ensures me(ip(x, (P - 1) / 2), js(x, P), P) { axiom_euler(x, P); lemma_me_sub(ip(x, (P - 1) / 2), js(x, P), P); }
pub proof fn lemma_s34(x: int, P: int, y: int) requires prime(P), P % 4 == 3, js(x, P) == 1, y == ip(x, (P + 1) / 4) % P ensures sq(y, x, P)
{ let e = (P + 1) / 4; lemma_me_rem(ip(x, e), P); lemma_me_mul(y, y, ip(x, e), ip(x, e), P); lemma_ip_add(x, e, e); lemma_ip_add(x, (P - 1) / 2, 1); lemma_ip1(x); lemma_eul(x, P); lemma_me_refl(x, P); lemma_me_mul(ip(x, (P - 1) / 2), x, 1, x, P);
  assert(2 * e == (P - 1) / 2 + 1); assert(1 * x == x); lemma_me_tr(y * y, ip(x, 2 * e), x, P); lemma_me_sub(y * y, x, P); }
/// Atkin: a = alpha, b = 2*x*a*a mod P, y = x*(b-1)*a
pub proof fn lemma_s58(x: int, P: int, a: int, b: int, y: int) requires prime(P), P % 8 == 5, js(x, P) == 1, me(a, ip(2 * x, P / 8), P), me(b, (a * a) * (2 * x), P), me(y, ((b - 1) * x) * a, P) ensures me(y * y, x, P)
{ let t = 2 * x; let k = P / 8; let A = ip(t, k); axiom_js_two(x, P); lemma_eul(t, P); assert(js(t, P) == -1);
  // b*b = -1
  lemma_me_refl(t, P); lemma_me_mul(a, a, A, A, P); lemma_me_mul(a * a, t, A * A, t, P); lemma_me_tr(b, (a * a) * t, (A * A) * t, P); let B = (A * A) * t; lemma_me_mul(b, b, B, B, P);
  lemma_ip_add(t, k, k); lemma_ip_add(t, 2 * k, 1); lemma_ip1(t); assert(B == ip(t, 2 * k + 1)); lemma_ip_add(t, 2 * k + 1, 2 * k + 1); assert(4 * k + 2 == (P - 1) / 2); lemma_me_tr(b * b, B * B, -1, P);
  // y*y = x
  let z = ((b - 1) * x) * a; lemma_me_mul(y, y, z, z, P); lemma_me_sub(b * b, -1, P); lemma_fundamental_div_mod(b * b + 1, P); let q = (b * b + 1) / P; lemma_me_sub(b, (a * a) * t, P); lemma_fundamental_div_mod(b - (a * a) * t, P); let w = (b - (a * a) * t) / P;
  // z*z = x*x*a*a*(b*b - 2b + 1) = x*x*a*a*(P*q - 2b);  2*x*a*a = b - P*w
  let c = (a * a) * x; let d = x * (c * q) + x * w * b - q * x ; 
  assert(z * z == (x * c) * (b * b - 2 * b + 1)) by(nonlinear_arith) requires z == ((b - 1) * x) * a, c == (a * a) * x;
  assert(2 * c == b - P * w) by(nonlinear_arith) requires b - (a * a) * t == P * w + 0, t == 2 * x, c == (a * a) * x;
  let e = x * c; assert(e * (b * b - 2 * b + 1) == e * (P * q) - (2 * e) * b) by(nonlinear_arith) requires b * b + 1 == P * q + 0;
  assert(2 * e == x * (b - P * w)) by(nonlinear_arith) requires e == x * c, 2 * c == b - P * w;
  assert((x * (b - P * w)) * b == x * (b * b) - (x * w * b) * P) by(nonlinear_arith);
  assert(x * (b * b) == x * (P * q - 1)) by(nonlinear_arith) requires b * b + 1 == P * q + 0;
  assert(x * (P * q - 1) == (x * q) * P - x) by(nonlinear_arith);
  assert(e * (P * q) == (e * q) * P) by(nonlinear_arith);
  let m1 = e * q; let m2 = x * w * b; let m3 = x * q; let m = m1 + m2 - m3; assert(m1 * P + m2 * P - m3 * P == P * m) by(nonlinear_arith) requires m == m1 + m2 - m3;
  assert(z * z - x == P * m); lemma_fundamental_div_mod_converse(z * z - x, P, m, 0); lemma_me_sub(z * z, x, P); lemma_me_tr(y * y, z * z, x, P); }
/// the start: v = x^s has order dividing 2^e, v^(2^(e-1)) is the symbol of x
pub proof fn lemma_ts_init(x: int, P: int, s: int, e: int, v: int) requires prime(P), P % 2 == 1, s >= 0, e >= 1, P - 1 == s * p2(e), me(v, ip(x, s), P) ensures me(ip(v, p2(e - 1)), js(x, P), P)
{ let Q = p2(e - 1); lemma_p2_pos(e - 1); lemma_p2_1(e - 1); lemma_me_ip(v, ip(x, s), Q, P); lemma_ip_ip(x, s, Q); assert(s * (2 * Q) == 2 * (s * Q)) by(nonlinear_arith); assert(s * Q == (P - 1) / 2); lemma_eul(x, P); lemma_me_tr(ip(v, Q), ip(ip(x, s), Q), js(x, P), P); }
/// one round: m is the least exponent with b^(2^m) = 1, 0 < m < r
pub proof fn lemma_ts_step(x: int, P: int, y: int, b: int, g: int, r: int, m: int, t: int, g2: int, y2: int, b2: int)
  requires prime(P), P % 2 == 1, 0 < m < r, me(y * y, x * b, P), me(ip(g, p2(r - 1)), -1, P), me(ip(b, p2(m)), 1, P), !me(ip(b, p2(m - 1)), 1, P),
    me(t, ip(g, p2(r - m - 1)), P), me(g2, t * t, P), me(y2, y * t, P), me(b2, b * g2, P)
  ensures me(y2 * y2, x * b2, P), me(ip(b2, p2(m - 1)), 1, P), me(ip(g2, p2(m - 1)), -1, P)
{ let M = p2(m - 1); let R = p2(r - m - 1); lemma_p2_pos(m - 1); lemma_p2_pos(r - m - 1); lemma_p2_1(r - m - 1); lemma_p2_add(r - m, m - 1); lemma_p2_1(m - 1);
  // g2^M = g^(2^(r-1)) = -1
  let G = ip(g, R); lemma_me_mul(t, t, G, G, P); lemma_ip_add(g, R, R); let G2 = ip(g, 2 * R); lemma_me_tr(g2, t * t, G2, P); lemma_me_ip(g2, G2, M, P); lemma_ip_ip(g, 2 * R, M); lemma_me_tr(ip(g2, M), ip(G2, M), -1, P);
  // b^M = -1
  let z = ip(b, M); lemma_ip_add(b, M, M); assert(z * z == ip(b, p2(m))); lemma_me_sub(z * z, 1, P); axiom_pm1(z, P); lemma_me_sub(z, 1, P); lemma_me_sub(z, -1, P); assert(me(z, -1, P));
  lemma_me_ip(b2, b * g2, M, P); lemma_ip_prod(b, g2, M); lemma_me_mul(z, ip(g2, M), -1, -1, P); assert((-1int) * (-1int) == 1); lemma_me_tr(ip(b2, M), z * ip(g2, M), 1, P);
  // squares
  lemma_me_mul(y2, y2, y * t, y * t, P); let yy = y * y; let tt = t * t; assert((y * t) * (y * t) == yy * tt) by(nonlinear_arith) requires yy == y * y, tt == t * t; lemma_me_sym(g2, tt, P); lemma_me_mul(yy, tt, x * b, g2, P);
  lemma_me_tr(y2 * y2, yy * tt, (x * b) * g2, P); assert((x * b) * g2 == x * (b * g2)) by(nonlinear_arith); lemma_me_refl(x, P); lemma_me_sym(b2, b * g2, P); lemma_me_mul(x, b * g2, x, b2, P); lemma_me_tr(y2 * y2, x * (b * g2), x * b2, P); }
''')
_MS = 'cb(H, slf), cb(H, p), !nb(H, slf), !nb(H, p), prime(bv(H, p)), bv(H, p) > 2, js(bv(H, slf), bv(H, p)) == 1'
_ME = 'ex(O, H), r.nat >= O.len(), cb(H, r), !nb(H, r), sq(bv(H, r), bv(O, slf), bv(O, p))'
F(BI + 'mod_sqrt_3mod4', 'mod_sqrt_3mod4', props='C15 C06 C08', req=_MS + ', bv(H, p) % 4 == 3', ens=_ME,
  ghost=['X = bv(h@, slf)', 'P = bv(h@, p)'], at={'before shr_inner:0': 'lemma_p2_0(); lemma_p2_1(1); lemma_nv_nonneg(h0, p.nat);', 'before bi_exp:0': 'lemma_nv_nonneg(H, e.nat); assert(bv(H, e) == (P + 1) / 4);', 'after bi_exp:0': 'lemma_s34(X, P, bv(H, bi_exp_0));'})
F(BI + 'mod_sqrt_5mod8', 'mod_sqrt_5mod8', props='C15 C06 C08', req=_MS + ', bv(H, p) % 8 == 5', ens=_ME,
  ghost=['X = bv(h@, slf)', 'P = bv(h@, p)', 'mut a: int = 0', 'mut v: int = 0', 'mut bt: int = 0'],
  at={'start': 'lemma_p2_0(); lemma_p2_1(1); lemma_p2_1(2);', 'after bi_shl:0': 'assert(bv(H, bi_shl_0) == 2 * X);', 'after bi_exp:0': 'a = bv(H, bi_exp_0); lemma_me_rem(ip(2 * X, P / 8), P); lemma_mod_bound(ip(2 * X, P / 8), P); lemma_nv_nonneg(H, bi_exp_0.nat);',
    'after sqr_v:0': 'v = a * a; assert(nv(H, e.nat) == v); assert(v >= 0) by(nonlinear_arith) requires v == a * a;',
    'after bi_rem_euclid_inner:0': 'lemma_me_rem(v, P); lemma_me_refl(2 * X, P); lemma_me_mul(bv(H, e), 2 * X, v, 2 * X, P);',
    'after bi_mul_inner:0': 'v = bv(H, e);', 'after bi_rem_euclid_inner:1': 'lemma_me_rem(v, P); bt = bv(H, e); lemma_me_tr(bt, v, (a * a) * (2 * X), P);',
    'after bi_mul_inner:1': 'v = bv(H, e); assert(v == (bt - 1) * X);', 'after bi_rem_euclid_inner:2': 'lemma_me_rem(v, P); lemma_me_refl(a, P); lemma_me_mul(bv(H, e), a, v, a, P);',
    'after bi_mul_inner:2': 'v = bv(H, e);', 'after bi_rem_euclid_inner:3': 'lemma_me_rem(v, P); let y = bv(H, e); lemma_me_tr(y, v, ((bt - 1) * X) * a, P); lemma_s58(X, P, a, bt, y); lemma_me_sub(y * y, X, P);'})
F(NAT + 'set_bits', 'set_bits', props='C15', req='cn(H, slf), !na(H, slf)', ens='fr(O, H, slf), H.len() == O.len(), is_set && nv(O, slf) == 0 ==> cn(H, slf) && !na(H, slf) && nv(H, slf) == p2(i as int)',
  at={'start': 'lemma_iszero(h0[[slf]]); lemma_one_shl(); lemma_p2_split(i as int);',
      'ret': 'if is_set && nv(h0, slf) == 0 { let k = j as int; let s = H[[slf]]; assert(s.len() == k + 1); assert(0u32 | m == m) by(bit_vector); assert(s[k] == m); lemma_step(s, 0, k); lemma_rv_zero(s, 0, k); lemma_p2_pos((i % 32) as int); let q = (i % 32) as u32; lemma_shl32(1u32, q); lemma_p2_lt(q as int, 32); lemma_p2_0(); lemma_small_mod(p2(q as int) as nat, 0x1_0000_0000); assert(m == p2(q as int)); let W = p2(q as int); let Z = pw(k); assert(W * Z == Z * W) by(nonlinear_arith); }'})
F(BI + 'set_bits', 'bi_set_bits', props='C15', req='cb(H, *old(slf)), !nb(H, *old(slf)), bv(H, *old(slf)) == 0, is_set', ens='fr(O, H, old(slf).nat), H.len() == O.len(), *final(slf) == *old(slf), cb(H, *final(slf)), !nb(H, *final(slf)), bv(H, *final(slf)) == p2(i as int)', at={'ret': 'lemma_p2_pos(i as int);'})

_TI = '''h0 == old(h)@, cb(h0, slf), cb(h0, p), !nb(h0, slf), !nb(h0, p), X == bv(h0, slf), P == bv(h0, p), prime(P), P > 2, P % 2 == 1, js(X, P) == 1, ex(h0, H), '''
_TC = '''h0.len() <= tmp.nat < H.len(), h0.len() <= y.nat < H.len(), h0.len() <= b.nat < H.len(), h0.len() <= g_v.nat < H.len(), tmp.nat != y.nat, tmp.nat != b.nat, tmp.nat != g_v.nat, y.nat != b.nat, y.nat != g_v.nat, b.nat != g_v.nat,
   cb(H, y), cb(H, b), cb(H, g_v), !nb(H, y), !nb(H, b), !nb(H, g_v), 0 <= bv(H, y) < P, 0 <= bv(H, b) < P, 0 <= bv(H, g_v) < P, r_v >= 1,
   me(bv(H, y) * bv(H, y), X * bv(H, b), P), me(ip(bv(H, b), p2(r_v - 1)), 1, P), me(ip(bv(H, g_v), p2(r_v - 1)), -1, P), '''
F(BI + 'mod_sqrt_tonelli_shanks', 'tonelli', props='C15 C06 C08', iso=True, rlimit=40, req=_MS + ', bv(H, p) % 2 == 1', ens=_ME,
  ghost=['X = bv(h@, slf)', 'P = bv(h@, p)', 'mut N: int = 0', 'mut S: int = 0', 'mut v: int = 0', 'mut y0: int = 0', 'mut b0: int = 0', 'mut g0: int = 0', 'mut g1: int = 0', 'mut tv: int = 0', 'mut w: int = 0', 'mut hb: Hp = h@'],
  loops={0: dict(inv=_TI + '''h0.len() <= n.nat < H.len(), h0.len() <= s.nat < H.len(), s.nat != n.nat, s.sign == BISign::Natural, n.sign == BISign::Natural, cb(H, n), cb(H, s), !nb(H, n), !nb(H, s), bv(H, s) == S, 2 <= bv(H, n) <= N, N < P, js(N, P) == -1''',
       ens=_TI + '''h0.len() <= n.nat < H.len(), h0.len() <= s.nat < H.len(), s.nat != n.nat, s.sign == BISign::Natural, n.sign == BISign::Natural, cb(H, n), cb(H, s), !nb(H, n), !nb(H, s), bv(H, s) == S, js(bv(H, n), P) == -1''',
       dec='N - bv(H, n)', pre='axiom_nonres(P); N = choose|n: int| 2 <= n < P && #[trigger] js(n, P) == -1;'),
     1: dict(inv=_TI + _TC, dec='r_v', ls='reveal(me); y0 = bv(H, y); b0 = bv(H, b); g0 = bv(H, g_v); hb = H;'),
     2: dict(inv=_TI + _TC + 'n2 == H[[b.nat]].len(), tmp.sign == b.sign, t2 == b.nat, bv(H, y) == y0, bv(H, b) == b0, bv(H, g_v) == g0, H[[tmp.nat]] == H[[b.nat]].take(i2 as int)', post='assert(H[[tmp.nat]] =~= H[[b.nat]]); v = bv(H, tmp); lemma_p2_0(); lemma_ip1(b0); lemma_me_refl(b0, P);', le='assert(H[[tmp.nat]] =~= H[[b.nat]].take(i2 + 1));'),
     3: dict(inv=_TI + _TC + 'cb(H, tmp), !nb(H, tmp), 0 <= bv(H, tmp) < P, bv(H, y) == y0, bv(H, b) == b0, bv(H, g_v) == g0, me(bv(H, tmp), ip(b0, p2(m as int)), P), m < r_v, m > 0 ==> !me(ip(b0, p2(m - 1)), 1, P)',
       ens=_TI + _TC + 'cb(H, tmp), tmp.sign == BISign::Natural, !nb(H, tmp), bv(H, y) == y0, bv(H, b) == b0, bv(H, g_v) == g0, me(1, ip(b0, p2(m as int)), P), m < r_v, m > 0 ==> !me(ip(b0, p2(m - 1)), 1, P)', dec='r_v - m',
       ls='lemma_nv_nonneg(H, tmp.nat); w = bv(H, tmp); lemma_small_mod(w as nat, P as nat); lemma_small_mod(1, P as nat); reveal(me); assert(w != 1 ==> !me(ip(b0, p2(m as int)), 1, P));')},
  at={'start': 'lemma_p2_0(); lemma_p2_1(1);',
    'after trailling_zeros:0': 'assert(nv(H, s.nat) == P - 1); v = trailling_zeros_0 as int; lemma_p2_pos(v); S = (P - 1) / p2(v); lemma_fundamental_div_mod(P - 1, p2(v)); let Q = p2(v); assert(P - 1 == S * Q) by(nonlinear_arith) requires P - 1 == Q * S + 0; if v == 0 { assert(S * 1 == S); }',
    'after bi_exp:0': 'w = bv(H, bi_exp_0); lemma_me_rem(ip(X, (S + 1) / 2), P);', 
    'after bi_exp:1': 'lemma_me_rem(ip(X, S), P); lemma_ts_init(X, P, S, v, bv(H, bi_exp_1)); let k = (S + 1) / 2; lemma_me_mul(w, w, ip(X, k), ip(X, k), P); lemma_ip_add(X, k, k); lemma_ip_add(X, S, 1); lemma_ip1(X); assert(2 * k == S + 1); lemma_me_refl(X, P); lemma_me_sym(bv(H, bi_exp_1), ip(X, S), P); lemma_me_mul(ip(X, S), X, bv(H, bi_exp_1), X, P); lemma_me_tr(w * w, ip(X, S) * X, bv(H, bi_exp_1) * X, P); lemma_mul_is_commutative(bv(H, bi_exp_1), X);',
    'after bi_exp:2': 'lemma_me_rem(ip(bv(H, n), S), P); lemma_ts_init(bv(H, n), P, S, v, bv(H, bi_exp_2));',
    'after bi_rem_euclid_inner:0': 'let P2 = p2(m as int); lemma_me_rem(w * w, P); lemma_me_mul(w, w, ip(b0, P2), ip(b0, P2), P); lemma_p2_pos(m as int); lemma_p2_1(m as int); lemma_ip_add(b0, P2, P2); lemma_me_tr(bv(H, tmp), w * w, ip(b0, 2 * P2), P);',
    'ret:0': 'lemma_p2_0(); lemma_ip1(b0); reveal(me); lemma_small_mod(1, P as nat); lemma_small_mod(b0 as nat, P as nat); assert(b0 == 1); assert(X * 1 == X); lemma_me_sub(y0 * y0, X, P);',
    'before bi_set_bits:0': 'lemma_val1(H[[tmp.nat]]); lemma_me_sym(1, ip(b0, p2(m as int)), P);',
    'after bi_exp:3': 'tv = bv(H, bi_exp_3); lemma_me_rem(ip(g0, p2(r_v - m - 1)), P); lemma_nv_nonneg(H, bi_exp_3.nat);',
    'after sqr_v:0': 'v = nv(H, g_v.nat); assert(v == tv * tv);',
    'after bi_rem_euclid_inner:1': 'g1 = bv(H, g_v); lemma_me_rem(tv * tv, P);',
    'after bi_mul_inner:1': 'v = bv(H, y);', 'after bi_rem_euclid_inner:2': 'lemma_me_rem(v, P);',
    'after bi_mul_inner:2': 'w = bv(H, b);', 'after bi_rem_euclid_inner:3': 'lemma_me_rem(w, P); lemma_ts_step(X, P, y0, b0, g0, r_v as int, m as int, tv, g1, bv(H, y), bv(H, b));',
  })

L('lemma_msq', '''
pub proof fn lemma_sq_mod(y: int, x: int, P: int) requires P > 0, sq(y, x % P, P) ensures sq(y, x, P) { lemma_me_sub(y * y, x % P, P); lemma_me_rem(x, P); lemma_me_tr(y * y, x % P, x, P); lemma_me_sub(y * y, x, P); }
pub proof fn lemma_nonsq(x: int, P: int) requires prime(P), js(x, P) == -1 ensures forall|y: int| #[trigger] (y * y - x) % P != 0 { assert forall|y: int| #[trigger] (y * y - x) % P != 0 by { axiom_js_nonsq(x, P, y); } }
pub proof fn lemma_sq0(x: int, P: int) requires prime(P), js(x, P) == 0 ensures sq(0, x, P) { axiom_js_pzero(x, P); lemma_me_sub(x, 0, P); lemma_me_sym(x, 0, P); assert(0int * 0int == 0); lemma_me_sub(0, x, P); }
pub open spec fn msq(y: int, x: int, P: int) -> bool { sq(y, x % P, P) }
''')
_MP = 'lemma_sq_mod(bv(H, %s), X, P);'
F(BI + 'mod_sqrt', 'mod_sqrt', props='C15 C06 C07 C08',
  req='cb(H, slf), cb(H, p), nb(H, p) || (prime(bv(H, p)) && bv(H, p) > 2)',
  ens='''ex(O, H), nb(O, slf) || nb(O, p) ==> r is None, r is Some ==> r->0.nat >= O.len() && cb(H, r->0) && !nb(H, r->0) && sq(bv(H, r->0), bv(O, slf), bv(O, p)),
    r is None && !nb(O, slf) && !nb(O, p) ==> forall|y: int| #[trigger] (y * y - bv(O, slf)) % bv(O, p) != 0''',
  ghost=['X = bv(h@, slf)', 'P = bv(h@, p)', 'mut x0: int = 0'],
  at={'start': 'if !nb(h0, p) { assert(P % 2 != 0); lemma_low3(h0[[p.nat]]); lemma_nv_nonneg(h0, p.nat); axiom_js_range(X, P); axiom_js_mod(X, P); lemma_me_rem(X, P); if !nb(h0, slf) { if js(X, P) == -1 { lemma_nonsq(X, P); } if js(X, P) == 0 { lemma_sq0(X, P); } if 0 <= X < P { lemma_small_mod(X as nat, P as nat); } } }',
    'after mod_sqrt_3mod4:0': _MP % 'mod_sqrt_3mod4_0', 'after mod_sqrt_5mod8:0': _MP % 'mod_sqrt_5mod8_0', 'after tonelli:0': _MP % 'tonelli_0'})
