# ---- BigInt square; gcd, inverse, linear congruences
F(BI + 'sqr', 'bi_sqr', props='C02 C06 C07 C08', req='cb(H, slf)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == nb(O, slf), !nb(H, r) ==> bv(H, r) == bv(O, slf) * bv(O, slf)', at={'ret': 'let a = nv(O, slf.nat); assert((-a) * (-a) == a * a) by(nonlinear_arith);'})
L('dvd', '''
#[verifier::opaque]
pub open spec fn dvd(d: int, a: int) -> bool { exists|k: int| a == #[trigger] (d * k) }
/// the greatest common divisor: non-negative, divides both, and every common divisor divides it
pub open spec fn isgcd(d: int, a: int, b: int) -> bool { d >= 0 && dvd(d, a) && dvd(d, b) && forall|c: int| #![trigger dvd(c, d)] dvd(c, a) && dvd(c, b) ==> dvd(c, d) }
pub proof fn lemma_dvd_w(d: int, a: int, k: int) requires a == d * k ensures dvd(d, a) { reveal(dvd); }
pub proof fn lemma_dvd_get(d: int, a: int) -> (k: int) requires dvd(d, a) ensures a == d * k { reveal(dvd); choose|k: int| a == #[trigger] (d * k) }
pub proof fn lemma_dvd_lin(c: int, a: int, b: int, x: int, y: int, d: int) requires dvd(c, a), dvd(c, b), d == a * x + b * y ensures dvd(c, d)
{ reveal(dvd); let k = choose|k: int| a == #[trigger] (c * k); let l = choose|l: int| b == #[trigger] (c * l); assert(d == c * (k * x + l * y)) by(nonlinear_arith) requires a == c * k, b == c * l, d == a * x + b * y; lemma_dvd_w(c, d, k * x + l * y); }
pub proof fn lemma_dvd_neg(c: int, a: int) ensures dvd(c, -a) == dvd(c, a), dvd(-c, a) == dvd(c, a), dvd(c, 0), dvd(1, a), dvd(a, a)
{ reveal(dvd); if dvd(c, a) { let k = choose|k: int| a == #[trigger] (c * k); assert(-a == c * (-k) && a == (-c) * (-k)) by(nonlinear_arith) requires a == c * k; }
  if dvd(c, -a) { let k = choose|k: int| -a == #[trigger] (c * k); assert(a == c * (-k)) by(nonlinear_arith) requires -a == c * k; }
  if dvd(-c, a) { let k = choose|k: int| a == #[trigger] ((-c) * k); assert(a == c * (-k)) by(nonlinear_arith) requires a == (-c) * k; }
  assert(c * 0 == 0); assert(1 * a == a); assert(a * 1 == a); }
pub proof fn lemma_isgcd(d: int, a: int, b: int, x: int, y: int) requires d >= 0, dvd(d, a), dvd(d, b), a * x + b * y == d ensures isgcd(d, a, b)
{ assert forall|c: int| #![trigger dvd(c, d)] dvd(c, a) && dvd(c, b) implies dvd(c, d) by { lemma_dvd_lin(c, a, b, x, y, d); } }
pub proof fn lemma_dvd_mod(d: int, a: int) requires d >= 1 ensures dvd(d, a) == (a % d == 0)
{ reveal(dvd); lemma_fundamental_div_mod(a, d); if a % d == 0 { lemma_dvd_w(d, a, a / d); } if dvd(d, a) { let k = choose|k: int| a == #[trigger] (d * k); lemma_mul_is_commutative(d, k); lemma_fundamental_div_mod_converse(a, d, k, 0); } }
pub proof fn lemma_dvd_le(d: int, a: int) requires dvd(d, a), a > 0, d >= 0 ensures 1 <= d <= a
{ reveal(dvd); let k = choose|k: int| a == #[trigger] (d * k); assert(1 <= d <= a) by(nonlinear_arith) requires a == d * k, a > 0, d >= 0; }
pub proof fn lemma_gcd_uniq(d: int, e: int, a: int, b: int) requires isgcd(d, a, b), isgcd(e, a, b) ensures d == e
{ reveal(dvd); assert(dvd(d, e) && dvd(e, d)); if d > 0 && e > 0 { lemma_dvd_le(d, e); lemma_dvd_le(e, d); } else { if d == 0 { let k = choose|k: int| e == #[trigger] (d * k); assert(d * k == 0); } if e == 0 { let k = choose|k: int| d == #[trigger] (e * k); assert(e * k == 0); } } }
''')
L('gxt', '''
/// what the extended Euclidean algorithm returns for a > 0, b >= 0
pub open spec fn gxt(a: int, b: int, d: int, x: int, y: int) -> bool {
  d >= 1 && dvd(d, a) && dvd(d, b) && a * x + b * y == d && ab(y) * d <= a && (b > 0 ==> ab(x) * d <= b) && x * y <= 0 && (b == 0 ==> x == 1 && y == 0 && d == a) && (b > 0 && a % b == 0 ==> x == 0) }
pub proof fn lemma_gxt(a: int, b: int, d: int, x: int, y: int) requires a > 0, b > 0, gxt(b, a % b, d, x, y) ensures gxt(a, b, d, y, x - (a / b) * y)
{ lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b); let q = a / b; let r = a % b; lemma_div_pos_is_pos(a, b); let z = x - q * y;
  assert(a * y + b * z == b * x + r * y) by(nonlinear_arith) requires a == b * q + r, z == x - q * y;
  lemma_dvd_lin(d, b, r, q, 1, a);
  assert(y * z <= 0) by(nonlinear_arith) requires z == x - q * y, x * y <= 0, q >= 0;
  if r == 0 { assert(q * 0 == 0); lemma_dvd_le(d, a); assert(ab(y) * d <= b); assert(1 * d == d); }
  else { let X = ab(x); let Y = ab(y);
    assert(ab(z) == X + q * Y) by(nonlinear_arith) requires z == x - q * y, x * y <= 0, q >= 0, X == ab(x), Y == ab(y);
    assert((X + q * Y) * d <= r + q * b) by(nonlinear_arith) requires X * d <= r, Y * d <= b, q >= 0;
    assert(q * b == b * q) by(nonlinear_arith); } }
''')
G = lambda h, r: 'cb({h}, {r}.0), cb({h}, {r}.1), cb({h}, {r}.2)'.format(h=h, r=r)
BVS = 'bv(H, r.0), bv(H, r.1), bv(H, r.2)'
F(BI + 'gcd_extend', 'gcd_extend', props='C10 C06 C08', req='cb(H, lhs), cb(H, rhs), !nb(H, lhs), !nb(H, rhs), bv(H, lhs) > 0, bv(H, rhs) >= 0', dec='bv(H, rhs)',
  ens='ex(O, H), own(O, r.0.nat, lhs.nat) || own(O, r.0.nat, rhs.nat), r.1.nat >= O.len(), r.2.nat >= O.len(), r.1.nat != r.2.nat, r.0.nat != r.1.nat, r.0.nat != r.2.nat, !nb(H, r.0), !nb(H, r.1), !nb(H, r.2), ' + G('H', 'r') + ', gxt(bv(O, lhs), bv(O, rhs), ' + BVS + ')',
  at={'start': 'let a = bv(H, lhs); lemma_dvd_neg(a, a); assert(a * 1 == a); assert(1 * 0 == 0); assert(0 * a == 0);',
      'after bi_div:0': 'let a = bv(O, lhs); let b = bv(O, rhs); lemma_mod_bound(a, b);',
      'after gcd_extend:0': 'let a = bv(O, lhs); let b = bv(O, rhs); lemma_gxt(a, b, bv(H, gcd_extend_0.0), bv(H, gcd_extend_0.1), bv(H, gcd_extend_0.2));'})
L('gcr', '''
/// what gcd returns for any a, b
#[verifier::opaque]
pub open spec fn gcr(a: int, b: int, d: int, x: int, y: int) -> bool { isgcd(d, a, b) && a * x + b * y == d && (b != 0 ==> ab(x) * d <= ab(b) && (ab(b) == 1 ==> x == 0)) }
pub proof fn lemma_gcr_a0(b: int) ensures gcr(0, b, ab(b), 0, if b < 0 { -1 } else { 1 }), gcr(0, 0, 0, 0, 0)
{ reveal(gcr); lemma_dvd_neg(ab(b), b); lemma_dvd_neg(b, b); lemma_dvd_neg(b, 0); lemma_dvd_neg(0, 0); let y = if b < 0 { -1int } else { 1 }; assert(0 * 0 + b * y == ab(b)) by(nonlinear_arith) requires y == (if b < 0 { -1int } else { 1 }); lemma_isgcd(ab(b), 0, b, 0, y); assert(0 * 0 + 0 * 0 == 0) by(nonlinear_arith); lemma_isgcd(0, 0, 0, 0, 0); assert(0 * ab(b) == 0); }
pub proof fn lemma_gcr_b0(a: int) ensures gcr(a, 0, ab(a), if a < 0 { -1 } else { 1 }, 0)
{ reveal(gcr); lemma_dvd_neg(ab(a), a); lemma_dvd_neg(a, a); lemma_dvd_neg(a, 0); let x = if a < 0 { -1int } else { 1 }; assert(a * x + 0 * 0 == ab(a)) by(nonlinear_arith) requires x == (if a < 0 { -1int } else { 1 }); lemma_isgcd(ab(a), a, 0, x, 0); }
pub proof fn lemma_gcr(a: int, b: int, d: int, k: int, l: int) requires a != 0, b != 0, gxt(ab(a), ab(b), d, k, l) ensures gcr(a, b, d, if a < 0 { -k } else { k }, if b < 0 { -l } else { l })
{ reveal(gcr); let x = if a < 0 { -k } else { k }; let y = if b < 0 { -l } else { l };
  assert(a * x == ab(a) * k) by(nonlinear_arith) requires x == (if a < 0 { -k } else { k }); assert(b * y == ab(b) * l) by(nonlinear_arith) requires y == (if b < 0 { -l } else { l });
  lemma_dvd_neg(d, a); lemma_dvd_neg(d, b); lemma_isgcd(d, a, b, x, y); if ab(b) == 1 { assert(ab(a) % 1 == 0); } }
''')
F(BI + 'gcd', 'bi_gcd', props='C10 C06 C07 C08', req='cb(H, slf), cb(H, other)',
  ens='''ex(O, H), r.0.nat >= O.len(), r.1.nat >= O.len(), r.2.nat >= O.len(), r.1.nat != r.2.nat, r.0.nat != r.1.nat, r.0.nat != r.2.nat, ''' + G('H', 'r') + ''', nb(H, r.0) == (nb(O, slf) || nb(O, other)), nb(H, r.1) == nb(H, r.0), nb(H, r.2) == nb(H, r.0),
   !nb(H, r.0) ==> gcr(bv(O, slf), bv(O, other), ''' + BVS + ''')''',
  at={'start': 'let a = bv(H, slf); let b = bv(H, other); lemma_gcr_a0(b); lemma_gcr_b0(a);',
      'after gcd_extend:0': 'lemma_gcr(bv(O, slf), bv(O, other), bv(H, gcd_extend_0.0), bv(H, gcd_extend_0.1), bv(H, gcd_extend_0.2));'})
L('lemma_gcd_red', '''
/// reducing the first operand (or negating the second) keeps the common divisors
pub proof fn lemma_gcd_red(d: int, a: int, b: int, g: int, n: int, q: int) requires isgcd(d, a, b), n == ab(b), a == n * q + g ensures isgcd(d, g, n)
{ lemma_dvd_neg(d, b); assert(g == a * 1 + n * (-q)) by(nonlinear_arith) requires a == n * q + g; lemma_dvd_lin(d, a, n, 1, -q, g);
  assert forall|c: int| #![trigger dvd(c, d)] dvd(c, g) && dvd(c, n) implies dvd(c, d) by { lemma_dvd_lin(c, n, g, q, 1, a); lemma_dvd_neg(c, b); } }
pub proof fn lemma_inv(a: int, b: int, g: int, n: int, q: int, d: int, x: int, y: int) requires b != 0, n == ab(b), a == n * q + g, isgcd(1, a, b), gcr(g, n, d, x, y)
  ensures d == 1, -n < x < n, dvd(n, a * x - 1), dvd(n, a * (x + n) - 1)
{ reveal(gcr); lemma_gcd_red(1, a, b, g, n, q); lemma_gcd_uniq(1, d, g, n); assert(ab(x) * 1 == ab(x));
  if ab(x) == n && n > 1 { lemma_dvd_neg(n, n); lemma_mul_is_commutative(g, x); lemma_dvd_lin(n, x, n, g, y, 1); lemma_dvd_le(n, 1); }
  assert(a * x - 1 == n * (q * x - y)) by(nonlinear_arith) requires a == n * q + g, g * x + n * y == 1;
  assert(a * (x + n) - 1 == n * (q * x - y + a)) by(nonlinear_arith) requires a == n * q + g, g * x + n * y == 1;
  lemma_dvd_w(n, a * x - 1, q * x - y); lemma_dvd_w(n, a * (x + n) - 1, q * x - y + a); }
''')
F(BI + 'mod_inverse', 'mod_inverse', props='C10 C06 C07 C08', req='cb(H, slf), cb(H, other), nb(H, other) || bv(H, other) != 0',
  ens='''ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == (nb(O, slf) || nb(O, other)), !nb(H, r) && isgcd(1, bv(O, slf), bv(O, other)) ==> 0 <= bv(H, r) < ab(bv(O, other)) && dvd(ab(bv(O, other)), bv(O, slf) * bv(H, r) - 1)''',
  at={'after bi_gcd:0': 'let a = bv(O, slf); let b = bv(O, other); let N = ab(b); lemma_fundamental_div_mod(a, N); assert(N * 0 == 0); if isgcd(1, a, b) { lemma_inv(a, b, bv(H, g_v), N, if a < 0 { a / N } else { 0 }, bv(H, bi_gcd_0.0), bv(H, bi_gcd_0.1), bv(H, bi_gcd_0.2)); }'})
L('solset', '''
/// the solution set of a*z = b (mod n)
pub open spec fn sol(a: int, b: int, n: int, z: int) -> bool { 0 <= z < n && dvd(n, a * z - b) }
pub open spec fn bvs(h: Hp, v: Seq<BigInt>) -> Seq<int> { Seq::new(v.len(), |k: int| bv(h, v[k])) }
/// v lists every solution exactly once
pub open spec fn solset(a: int, b: int, n: int, v: Seq<int>) -> bool {
  (forall|k: int| 0 <= k < v.len() ==> #[trigger] sol(a, b, n, v[k])) && (forall|j: int, k: int| 0 <= j < k < v.len() ==> v[j] != v[k]) && (forall|z: int| #[trigger] sol(a, b, n, z) ==> v.contains(z)) }
pub proof fn lemma_congr(p: int, q: int, n: int) requires n >= 1 ensures p % n == q % n <==> dvd(n, p - q)
{ reveal(dvd); lemma_fundamental_div_mod(p, n); lemma_fundamental_div_mod(q, n); lemma_mod_bound(p, n); lemma_mod_bound(q, n); let u = p / n; let w = q / n;
  if p % n == q % n { assert(p - q == n * (u - w)) by(nonlinear_arith) requires p == n * u + p % n, q == n * w + q % n, p % n == q % n; lemma_dvd_w(n, p - q, u - w); }
  if dvd(n, p - q) { let k = choose|k: int| p - q == #[trigger] (n * k); assert(p == (w + k) * n + q % n) by(nonlinear_arith) requires p - q == n * k, q == n * w + q % n; lemma_fundamental_div_mod_converse(p, n, w + k, q % n); } }
pub proof fn lemma_sol_base(a: int, b: int, n: int, q: int, g: int, d: int, x: int, y: int, t: int, x0: int) -> (C: int)
  requires n >= 1, a == n * q + g, b == d * t, x0 == (x * t) % n, g * x + n * y == d ensures a * x0 - b == n * C
{ lemma_fundamental_div_mod(x * t, n); let u0 = (x * t) / n; let X = x * t; let W = q * x - y; let w = W * t;
  assert(a * X - b == n * w) by(nonlinear_arith) requires X == x * t, W == q * x - y, w == W * t, b == d * t, a == n * q + g, g * x + n * y == d;
  let C = w - a * u0;
  assert(a * x0 - b == n * C) by(nonlinear_arith) requires a * X - b == n * w, X == n * u0 + x0, C == w - a * u0;
  C }
pub proof fn lemma_sol_sound(a: int, b: int, n: int, d: int, A: int, M: int, x0: int, C: int, k: int, z: int)
  requires n >= 1, a * x0 - b == n * C, a == d * A, n == d * M, z == (x0 + k * M) % n ensures sol(a, b, n, z)
{ let p = x0 + k * M; lemma_fundamental_div_mod(p, n); lemma_mod_bound(p, n); let u = p / n;
  assert(a * z - b == n * (C + A * k - a * u)) by(nonlinear_arith) requires a * x0 - b == n * C, a == d * A, n == d * M, x0 + k * M == n * u + z;
  lemma_dvd_w(n, a * z - b, C + A * k - a * u); }
pub proof fn lemma_sol_dist(n: int, d: int, M: int, x0: int, j: int, k: int) requires n >= 1, d >= 1, n == d * M, M >= 1, 0 <= j < k < d ensures (x0 + j * M) % n != (x0 + k * M) % n
{ if (x0 + j * M) % n == (x0 + k * M) % n { let e = (k - j) * M; assert(x0 + k * M - (x0 + j * M) == e) by(nonlinear_arith) requires e == (k - j) * M; lemma_congr(x0 + k * M, x0 + j * M, n); assert(0 < e < n) by(nonlinear_arith) requires e == (k - j) * M, 0 < k - j < d, M >= 1, n == d * M; lemma_dvd_le(n, e); } }
pub proof fn lemma_sol_compl(a: int, b: int, n: int, q: int, g: int, d: int, x: int, y: int, x0: int, M: int, C: int, z: int) -> (k: int)
  requires n >= 1, d >= 1, n == d * M, a * x0 - b == n * C, a == n * q + g, g * x + n * y == d, sol(a, b, n, z) ensures 0 <= k < d, z == (x0 + k * M) % n
{ let c = lemma_dvd_get(n, a * z - b); let w = z - x0; let E = c - C - q * w; let gw = g * w; let gx = g * x; let S = x * E + y * w;
  assert(a * w == a * z - a * x0) by(nonlinear_arith) requires w == z - x0; assert(n * c - n * C == n * (c - C)) by(nonlinear_arith);
  assert(a * w == n * (q * w) + gw) by(nonlinear_arith) requires a == n * q + g, gw == g * w;
  assert(n * (c - C) - n * (q * w) == n * E) by(nonlinear_arith) requires E == c - C - q * w;
  assert(gw == n * E);
  assert(d * w == gx * w + n * (y * w)) by(nonlinear_arith) requires gx + n * y == d; assert(gx * w == x * gw) by(nonlinear_arith) requires gx == g * x, gw == g * w;
  assert(x * (n * E) + n * (y * w) == n * S) by(nonlinear_arith) requires S == x * E + y * w;
  assert(d * w == n * S);
  assert(d * (w - M * S) == 0) by(nonlinear_arith) requires d * w == n * S, n == d * M;
  assert(w == M * S) by(nonlinear_arith) requires d * (w - M * S) == 0, d >= 1;
  let k = S % d; let e = S / d; lemma_fundamental_div_mod(S, d); lemma_mod_bound(S, d); lemma_small_mod(z as nat, n as nat);
  let p = x0 + k * M; assert(z - p == n * e) by(nonlinear_arith) requires z - x0 == M * S, S == d * e + k, n == d * M, p == x0 + k * M;
  lemma_dvd_w(n, z - p, e); lemma_congr(z, p, n); k }
pub proof fn lemma_solve(a: int, b: int, n: int, q: int, g: int, d: int, x: int, y: int, t: int, x0: int, M: int, v: Seq<int>)
  requires n >= 1, d >= 1, gcr(g, n, d, x, y), a == n * q + g, b == d * t, x0 == (x * t) % n, n == d * M, v.len() == d, forall|k: int| 0 <= k < d ==> #[trigger] v[k] == (x0 + k * M) % n
  ensures solset(a, b, n, v)
{ assert(dvd(d, g) && dvd(d, n) && g * x + n * y == d) by { reveal(gcr); } lemma_dvd_lin(d, n, g, q, 1, a); let A = lemma_dvd_get(d, a); let C = lemma_sol_base(a, b, n, q, g, d, x, y, t, x0);
  assert(M >= 1) by(nonlinear_arith) requires n >= 1, d >= 1, n == d * M;
  assert forall|k: int| 0 <= k < v.len() implies #[trigger] sol(a, b, n, v[k]) by { lemma_sol_sound(a, b, n, d, A, M, x0, C, k, v[k]); }
  assert forall|j: int, k: int| 0 <= j < k < v.len() implies v[j] != v[k] by { lemma_sol_dist(n, d, M, x0, j, k); }
  assert forall|z: int| #[trigger] sol(a, b, n, z) implies v.contains(z) by { let k = lemma_sol_compl(a, b, n, q, g, d, x, y, x0, M, C, z); assert(v[k] == z); } }
''')
F(BI + 'solve_mod_linear_equation', 'solve_mod', props='C10 C06 C08', req='cb(H, slf), cb(H, b), cb(H, n), nb(H, n) || bv(H, n) != 0',
  ens='''ex(O, H), r.is_some() ==> forall|k: int| 0 <= k < r->0@.len() ==> cb(H, #[trigger] r->0@[k]) && !nb(H, r->0@[k]),
    r.is_some() ==> !nb(O, slf) && !nb(O, b) && !nb(O, n) && solset(bv(O, slf), bv(O, b), ab(bv(O, n)), bvs(H, r->0@)),
    r.is_none() && !nb(O, slf) && !nb(O, b) && !nb(O, n) ==> exists|d: int| isgcd(d, bv(O, slf), ab(bv(O, n))) && !#[trigger] dvd(d, bv(O, b)),
    r.is_some() ==> isgcd(r->0@.len() as int, bv(O, slf), ab(bv(O, n))) && dvd(r->0@.len() as int, bv(O, b))''',
  ghost=['a0 = bv(H, slf)', 'b0 = bv(H, b)', 'n0v = ab(bv(H, n))', 'q0 = if a0 < 0 { a0 / n0v } else { 0 }'],
  loops={0: dict(inv='''ex(h0, H), x0.nat < H.len(), !nb(H, i), !nb(H, d), !nb(H, one), !nb(H, x0), !nb(H, n_d), !nb(H, n_1), cb(H, i), cb(H, d), cb(H, one), cb(H, x0), cb(H, n_d), cb(H, n_1), i.nat >= h0.len(), i.nat != d.nat, i.nat != one.nat, i.nat != x0.nat, i.nat != n_d.nat, i.nat != n_1.nat, bv(H, d) == D, bv(H, one) == 1, bv(H, n_d) == M, bv(H, n_1) == n0v, bv(H, x0) == X0,
      0 <= bv(H, i) <= D, bv(H, i) == res@.len(), forall|k: int| 0 <= k < res@.len() ==> #[trigger] res@[k].nat != i.nat && cb(H, res@[k]) && !nb(H, res@[k]) && bv(H, res@[k]) == (X0 + k * M) % n0v''', dec='D - bv(H, i)', ens='res@.len() == D',
     post='let vs = bvs(H, res@); assert(isgcd(D, a0, n0v)); assert(dvd(D, b0)) by { lemma_dvd_w(D, b0, T); } assert(b0 == D * T); assert(n0v == D * M); lemma_solve(a0, b0, n0v, q0, G, D, X, Y, T, X0, M, vs);')},
  at={'start': 'if n0v != 0 { lemma_fundamental_div_mod(a0, n0v); } assert(n0v * 0 == 0);',
     'after bi_gcd:0': ('G = bv(h@, a)', 'D = bv(h@, bi_gcd_0.0)', 'X = bv(h@, bi_gcd_0.1)', 'Y = bv(h@, bi_gcd_0.2)', 'reveal(gcr); if D == 0 { let k = lemma_dvd_get(D, n0v); assert(D * k == 0); } assert(a0 == n0v * q0 + G); assert(n0v * (-q0) == -(n0v * q0)) by(nonlinear_arith); lemma_gcd_red(D, G, n0v, a0, n0v, -q0); lemma_tqr(b0, D); lemma_tqr(n0v, D); lemma_dvd_mod(D, ab(b0)); lemma_dvd_mod(D, n0v); lemma_dvd_neg(D, b0); lemma_mul_is_commutative(D, tq(b0, D)); lemma_mul_is_commutative(D, tq(n0v, D)); '),
     'after bi_div:0': ('T = tq(b0, D)', ''),
     'after bi_rem_euclid:1': ('X0 = bv(h@, bi_rem_euclid_1)', ''),
     'after bi_div:1': ('M = bv(h@, bi_div_1)', '')})
