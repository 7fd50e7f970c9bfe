# ---- primality
L('mrp', '''
/// x, x^2, x^4, .. x^(2^t) mod n ends in 1 and shows no square root of 1 other than 1 and n - 1
pub open spec fn mrp(x: int, t: int, n: int) -> bool { ip(x, p2(t)) % n == 1 && forall|i: int| 0 <= i < t && ip(x, #[trigger] p2(i + 1)) % n == 1 ==> ip(x, p2(i)) % n == 1 || ip(x, p2(i)) % n == n - 1 }
pub proof fn lemma_fermat(a: int, n: int) requires prime(n), n % 2 == 1, 0 < a < n ensures ip(a, n - 1) % n == 1
{ let e = (n - 1) / 2; axiom_js_range(a, n); if js(a, n) == 0 { axiom_js_pzero(a, n); lemma_small_mod(a as nat, n as nat); } lemma_eul(a, n); let j = js(a, n); lemma_me_mul(ip(a, e), ip(a, e), j, j, n); lemma_ip_add(a, e, e); assert(e + e == n - 1); assert(j * j == 1) by(nonlinear_arith) requires j == 1 || j == -1; reveal(me); lemma_small_mod(1, n as nat); }
pub proof fn lemma_ip_dbl(x: int, i: int) requires i >= 0 ensures ip(x, p2(i + 1)) == ip(x, p2(i)) * ip(x, p2(i)) { lemma_p2_1(i); lemma_p2_pos(i); lemma_ip_add(x, p2(i), p2(i)); assert(p2(i) + p2(i) == 2 * p2(i)); }
/// a prime passes for every base
pub proof fn lemma_mr(a: int, u: int, t: int, n: int) requires prime(n), n % 2 == 1, 0 < a < n, n - 1 == u * p2(t), t >= 0, u >= 0 ensures mrp(ip(a, u) % n, t, n)
{ let y = ip(a, u); let x = y % n; lemma_p2_pos(t); lemma_ip_mod(y, p2(t), n); lemma_ip_ip(a, u, p2(t)); lemma_fermat(a, n);
  assert forall|i: int| 0 <= i < t && ip(x, #[trigger] p2(i + 1)) % n == 1 implies ip(x, p2(i)) % n == 1 || ip(x, p2(i)) % n == n - 1 by {
    let z = ip(x, p2(i)); lemma_ip_dbl(x, i); lemma_me_sub(z * z, 1, n); lemma_small_mod(1, n as nat); reveal(me); axiom_pm1(z, n); lemma_me_sub(z, 1, n); lemma_me_sub(z, -1, n); lemma_fundamental_div_mod_converse(-1, n, -1, n - 1); } }
/// s bases were tried, none is a witness
pub open spec fn mrb(b: Seq<int>, u: int, t: int, n: int) -> bool { forall|k: int| 0 <= k < b.len() ==> 0 < (#[trigger] b[k]) < n && mrp(ip(b[k], u) % n, t, n) }
pub open spec fn mrall(n: int, s: int) -> bool { exists|b: Seq<int>, u: int, t: int| b.len() == s && n - 1 == u * #[trigger] p2(t) && u % 2 == 1 && #[trigger] mrb(b, u, t, n) }
''')
F(NAT + 'miller_rabin_witness', 'mr_witness', props='C21',
  req='cn(H, slf), !na(H, slf), cn(H, n), !na(H, n), nv(H, n) > 1, nv(H, slf) < nv(H, n), cn(H, n_m1), !na(H, n_m1), nv(H, n_m1) == nv(H, n) - 1, ok(H, buf), slf != buf, slf != n, slf != n_m1, buf != n, buf != n_m1',
  ens='fr2(O, H, slf, buf), r == !mrp(nv(O, slf), t as int, nv(O, n))',
  ghost=['X = nv(h@, slf)', 'N = nv(h@, n)', 'mut z: int = 0'],
  loops={0: dict(inv='''n0 == t, swp(xi, xi_m1, buf, slf), fr2(h0, H, slf, buf), cn(H, xi_m1), !na(H, xi_m1), nv(H, xi_m1) == ip(X, p2(i0 as int)) % N,
       forall|i: int| 0 <= i < i0 && ip(X, #[trigger] p2(i + 1)) % N == 1 ==> ip(X, p2(i)) % N == 1 || ip(X, p2(i)) % N == N - 1''',
     pre='lemma_p2_0(); lemma_ip1(X); lemma_nv_nonneg(h0, slf); lemma_small_mod(X as nat, N as nat);', ls='z = ip(X, p2(i0 as int)); lemma_ip_dbl(X, i0 as int); lemma_mulmod(z, z, N);')},
  at={})
_MRI = '''ex(h0, H), rng.src@ == old(rng).src@, h0.len() <= a < H.len(), h0.len() <= n_m1 < H.len(), h0.len() <= u < H.len(), h0.len() <= buf < H.len(), a != n_m1, a != u, a != buf, n_m1 != buf, u != buf,
       cn(H, n_m1), !na(H, n_m1), nv(H, n_m1) == N - 1, cn(H, u), !na(H, u), nv(H, u) == U, N - 1 == U * p2(t as int), U >= 0'''
F(NAT + 'prime_validate_by_miller_rabin', 'miller_rabin', props='C21 C08', nodec=True,
  req='cn(H, slf), !na(H, slf), nv(H, slf) >= 3, nv(H, slf) % 2 == 1',
  ens='ex(O, H), final(rng).src@ == old(rng).src@, prime(nv(O, slf)) ==> r, r ==> mrall(nv(O, slf), s as int)',
  ghost=['N = nv(h@, slf)', 'mut U: int = 0', 'mut bs: Seq<int> = Seq::empty()', 'mut av: int = 0'],
  loops={0: dict(inv=_MRI + ', n0 == s, bs.len() == i0, mrb(bs, U, t as int, N)', le='bs = bs.push(av);', ),
     1: dict(inv=_MRI, ens='%s, cn(H, a), !na(H, a), 0 < nv(H, a) < N' % _MRI)},
  at={'after nat_shr_usize:0': 'lemma_p2_pos(t as int); let q = p2(t as int); U = (N - 1) / q; lemma_fundamental_div_mod(N - 1, q); assert(U * q == q * U) by(nonlinear_arith);',
      'before nat_exp:0': 'av = nv(H, a); lemma_iszero(h0[[slf]]); if prime(N) { lemma_mr(av, U, t as int, N); } lemma_mod_bound(ip(av, U), N);',
      'ret:1': 'assert(mrb(bs, U, t as int, N) && N - 1 == U * p2(t as int));'})
L('lv', '''
/// Lucas sequence V(k) of x^2 - P x + 1
pub open spec fn lv(P: int, k: int) -> int decreases k { if k <= 0 { 2 } else if k == 1 { P } else { P * lv(P, k - 1) - lv(P, k - 2) } }
#[verifier::external_body] pub proof fn axiom_prime_mul(a: int, b: int, p: int) requires prime(p), (a * b) % p == 0 ensures a % p == 0 || b % p == 0 { }
#[verifier::external_body] pub proof fn axiom_lucas(P: int, n: int, s: int, r: int) requires prime(n), n % 2 == 1, js(P * P - 4, n) == -1, s >= 1, r >= 0, n + 1 == s * p2(r)
  ensures ((lv(P, s) - 2) % n == 0 && (P * lv(P, s) - 2 * lv(P, s + 1)) % n == 0) || ((lv(P, s) + 2) % n == 0 && (P * lv(P, s) - 2 * lv(P, s + 1)) % n == 0) || exists|t: int| 0 <= t && t + 1 < r && lv(P, s * #[trigger] p2(t)) % n == 0 { }
pub proof fn lemma_lv_inv(P: int, k: int) requires k >= 0 ensures lv(P, k) * lv(P, k) + lv(P, k + 1) * lv(P, k + 1) - P * (lv(P, k) * lv(P, k + 1)) == 4 - P * P decreases k
{ if k == 0 { assert(lv(P, 0) == 2 && lv(P, 1) == P); assert(P * (2 * P) == 2 * (P * P)) by(nonlinear_arith); } else { lemma_lv_inv(P, k - 1); let a = lv(P, k - 1); let b = lv(P, k); let c = lv(P, k + 1); assert(c == P * b - a); 
   assert(b * b + c * c - P * (b * c) == a * a + b * b - P * (a * b)) by(nonlinear_arith) requires c == P * b - a; } }
pub proof fn lemma_lv_dbl(P: int, k: int) requires k >= 0 ensures lv(P, 2 * k) == lv(P, k) * lv(P, k) - 2, lv(P, 2 * k + 1) == lv(P, k) * lv(P, k + 1) - P decreases k
{ if k == 0 { assert(lv(P, 0) == 2 && lv(P, 1) == P); } else { lemma_lv_dbl(P, k - 1); lemma_lv_inv(P, k - 1); let a = lv(P, k - 1); let b = lv(P, k); let c = lv(P, k + 1); let d = lv(P, 2 * k - 2); let e = lv(P, 2 * k - 1); let f = lv(P, 2 * k); let g = lv(P, 2 * k + 1);
   assert(c == P * b - a); assert(f == P * e - d); assert(g == P * f - e); assert(f == b * b - 2) by(nonlinear_arith) requires f == P * e - d, e == a * b - P, d == a * a - 2, a * a + b * b - P * (a * b) == 4 - P * P;
   assert(g == b * c - P) by(nonlinear_arith) requires g == P * f - e, f == b * b - 2, e == a * b - P, c == P * b - a; } }
pub proof fn lemma_me_add(a: int, b: int, c: int, d: int, n: int) requires n > 0, me(a, c, n), me(b, d, n) ensures me(a + b, c + d, n), me(a - b, c - d, n)
{ lemma_me_sub(a, c, n); lemma_me_sub(b, d, n); lemma_fundamental_div_mod(a - c, n); lemma_fundamental_div_mod(b - d, n); let u = (a - c) / n; let v = (b - d) / n; assert((a + b) - (c + d) == n * (u + v)) by(nonlinear_arith) requires a - c == n * u, b - d == n * v; assert((a - b) - (c - d) == n * (u - v)) by(nonlinear_arith) requires a - c == n * u, b - d == n * v;
  lemma_fundamental_div_mod_converse((a + b) - (c + d), n, u + v, 0); lemma_fundamental_div_mod_converse((a - b) - (c - d), n, u - v, 0); lemma_me_sub(a + b, c + d, n); lemma_me_sub(a - b, c - d, n); }
pub proof fn lemma_me_n(n: int) requires n > 0 ensures me(n, 0, n) { lemma_me_sub(n, 0, n); lemma_mod_self_0(n); }
pub proof fn lemma_lstep(x: int, y: int, P: int, k: int, n: int) requires n > 0, k >= 0, me(x, lv(P, k), n), me(y, lv(P, k + 1), n)
  ensures me(x * y + n - P, lv(P, 2 * k + 1), n), me(x * x + (n - 2), lv(P, 2 * k), n), me(y * y + (n - 2), lv(P, 2 * k + 2), n)
{ let a = lv(P, k); let b = lv(P, k + 1); lemma_lv_dbl(P, k); lemma_lv_dbl(P, k + 1); assert(2 * (k + 1) == 2 * k + 2); lemma_me_n(n); lemma_me_refl(P, n); lemma_me_refl(2, n);
  lemma_me_mul(x, y, a, b, n); lemma_me_add(x * y, n, a * b, 0, n); lemma_me_add(x * y + n, P, a * b + 0, P, n);
  lemma_me_add(n, 2, 0, 2, n); lemma_me_mul(x, x, a, a, n); lemma_me_add(x * x, n - 2, a * a, 0 - 2, n); lemma_me_mul(y, y, b, b, n); lemma_me_add(y * y, n - 2, b * b, 0 - 2, n); }
/// residues
pub proof fn lemma_me_eq(x: int, y: int, n: int) requires 0 <= x < n, 0 <= y < n, me(x, y, n) ensures x == y { reveal(me); lemma_small_mod(x as nat, n as nat); lemma_small_mod(y as nat, n as nat); }
/// 2 and -1 are fixed points of v -> v*v - 2
pub proof fn lemma_stuck(P: int, s: int, t: int, T: int, n: int, c: int) requires n > 0, s >= 0, 0 <= t <= T, c == 2 || c == -1, me(lv(P, s * p2(t)), c, n) ensures me(lv(P, s * p2(T)), c, n) decreases T - t
{ if t < T { let m = s * p2(t); lemma_p2_pos(t); assert(m >= 0) by(nonlinear_arith) requires m == s * p2(t), s >= 0, p2(t) >= 1; lemma_lv_dbl(P, m); lemma_p2_1(t); assert(s * (2 * p2(t)) == 2 * m) by(nonlinear_arith) requires m == s * p2(t); let v = lv(P, m); lemma_me_mul(v, v, c, c, n); lemma_me_refl(2, n); lemma_me_add(v * v, 2, c * c, 2, n); assert(c * c - 2 == c) by(nonlinear_arith) requires c == 2 || c == -1; lemma_stuck(P, s, t + 1, T, n, c); } }
/// a prime that has not reached 0 yet at t: v is neither 1 nor 2, and T is still ahead
pub proof fn lemma_ahead(P: int, s: int, t: int, T: int, n: int, v: int) requires n >= 5, s >= 0, 0 <= t <= T, 0 < v < n, me(v, lv(P, s * p2(t)), n), lv(P, s * p2(T)) % n == 0
  ensures t < T, v > 2, me(v * v - 2, lv(P, s * p2(t + 1)), n)
{ let z = lv(P, s * p2(T)); let m = s * p2(t); let l = lv(P, m); lemma_me_sub(z, 0, n); reveal(me); lemma_small_mod(v as nat, n as nat); lemma_small_mod(0, n as nat); lemma_small_mod(2, n as nat); lemma_small_mod(1, n as nat); lemma_fundamental_div_mod_converse(-1, n, -1, n - 1);
  assert(t < T); lemma_p2_pos(t); assert(m >= 0) by(nonlinear_arith) requires m == s * p2(t), s >= 0, p2(t) >= 1; lemma_lv_dbl(P, m); lemma_p2_1(t); assert(s * (2 * p2(t)) == 2 * m) by(nonlinear_arith) requires m == s * p2(t); lemma_me_mul(v, v, l, l, n); lemma_me_add(v * v, 2, l * l, 2, n);
  if v == 2 { lemma_stuck(P, s, t, T, n, 2); } if v == 1 { lemma_stuck(P, s, t + 1, T, n, -1); } }
/// a number below 2^32 has one word
pub proof fn lemma_small(s: Seq<u32>) requires canon(s), s.len() > 0, val(s) < 0x1_0000_0000 ensures s.len() == 1, val(s) == s[0]
{ if s.len() > 1 { lemma_top(s); lemma_pw_mono(1, s.len() - 1); assert(pw(1) == 0x1_0000_0000 * pw(0)); } lemma_val1(s); }
pub proof fn lemma_uzero(x: int, y: int, P: int, k: int, n: int) requires n > 0, k >= 0, me(x, lv(P, k), n), me(y, lv(P, k + 1), n), (P * lv(P, k) - 2 * lv(P, k + 1)) % n == 0 ensures (x * P - 2 * y) % n == 0, (2 * y - x * P) % n == 0
{ let a = lv(P, k); let b = lv(P, k + 1); lemma_me_refl(P, n); lemma_me_refl(2, n); lemma_me_mul(x, P, a, P, n); lemma_me_mul(2, y, 2, b, n); lemma_me_add(x * P, 2 * y, a * P, 2 * b, n); lemma_me_add(2 * y, x * P, 2 * b, a * P, n); assert(P * a == a * P) by(nonlinear_arith); lemma_me_sub(a * P, 2 * b, n); lemma_me_sym(a * P, 2 * b, n); lemma_me_sub(2 * b, a * P, n); 
  lemma_me_sub(a * P - 2 * b, 0, n); lemma_me_sub(2 * b - a * P, 0, n); lemma_me_tr(x * P - 2 * y, a * P - 2 * b, 0, n); lemma_me_tr(2 * y - x * P, 2 * b - a * P, 0, n); lemma_me_sub(x * P - 2 * y, 0, n); lemma_me_sub(2 * y - x * P, 0, n); }
pub proof fn lemma_bitstep(S: int, i: int) requires i >= 0, S >= 0 ensures S / p2(i) == 2 * (S / p2(i + 1)) + (if bit(S, i) { 1int } else { 0 }), S / p2(i + 1) >= 0
{ lemma_p2_1(i); lemma_p2_pos(i); lemma_p2_pos(i + 1); let q = S / p2(i); lemma_div_denominator(S, p2(i), 2); lemma_div_pos_is_pos(S, p2(i + 1)); }
''')
_L0 = 'h0 == old(h)@, cn(h0, slf), !na(h0, slf), N == nv(h0, slf), N >= 5, N % 2 == 1, '
_LC = _L0 + 'ex(h0, H), h0.len() <= t1_v < H.len(), '
_LD = _L0 + '''PP <= N - 2, PP >= 3, S >= 0, ex(h0, hd), fr(hd, H, t1_v), h0.len() <= t1_v < hd.len(), vk < H.len(), vk != t1_v, cn(H, vk), !na(H, vk), nv(H, vk) < N, '''
F(NAT + 'prime_validate_by_lucas', 'lucas', props='C21 C08', rlimit=60, iso=True,
  req='cn(H, slf), !na(H, slf), nv(H, slf) >= 5, nv(H, slf) % 2 == 1',
  ens='ex(O, H), prime(nv(O, slf)) ==> r',
  ghost=['N = nv(h@, slf)', 'mut S: int = 0', 'mut k: int = 0', 'mut hd: Hp = h@', 'mut T: int = 0', 'mut xv: int = 0', 'mut yv: int = 0', 'mut PP: int = 0'],
  loops={0: dict(inv=_LC + '''h0.len() <= int_d.nat < H.len(), h0.len() <= int_n.nat < H.len(), int_d.nat != int_n.nat, int_d.nat != t1_v, int_n.nat != t1_v, cb(H, int_n), !nb(H, int_n), bv(H, int_n) == N, H[[int_d.nat]].len() == 1, int_d.sign == BISign::Natural,
        3 <= p <= 10001, p <= N - 2''', ens=_LC + '3 <= p <= 10001, p <= N - 2, p <= 10000 ==> js(p * p - 4, N) == -1', dec='10001 - p',
        ls='let q = p as int; assert(q * q <= 100000000 && q * q >= 9) by(nonlinear_arith) requires 3 <= q <= 10000; axiom_js_zero(N);'),
     1: dict(inv=_LD + '''n1 == blen(S) + 1, t14 == n1, s < hd.len(), nm2 < hd.len(), nat_p < hd.len(), s != t1_v, nm2 != t1_v, nat_p != t1_v, cn(hd, s), !na(hd, s), nv(hd, s) == S, S >= 1, cn(hd, nm2), !na(hd, nm2), nv(hd, nm2) == N - 2, cn(hd, nat_p), !na(hd, nat_p), nv(hd, nat_p) == p, p == PP,
        vk1 < H.len(), vk1 != t1_v, vk1 != vk, cn(H, vk1), !na(H, vk1), nv(H, vk1) < N, k == S / p2(n1 - i1), k >= 0, me(nv(H, vk), lv(PP, k), N), me(nv(H, vk1), lv(PP, k + 1), N)''',
        pre='hd = H; lemma_me_refl(2, N); lemma_me_refl(PP, N); lemma_blen_ge(S); lemma_p2_mono(blen(S), blen(S) + 1); lemma_basic_div(S, p2(blen(S) + 1)); k = 0; assert(lv(PP, 0) == 2 && lv(PP, 1) == PP);',
        ls='xv = nv(H, vk); yv = nv(H, vk1); lemma_nv_nonneg(H, vk); lemma_nv_nonneg(H, vk1);  lemma_lstep(xv, yv, PP, k, N); assert(xv * yv >= 0) by(nonlinear_arith) requires xv >= 0, yv >= 0; lemma_bitstep(S, n1 - i1 - 1); lemma_blen_le(S); lemma_me_rem(xv * yv + N - PP, N); lemma_me_rem(xv * xv + (N - 2), N); lemma_me_rem(yv * yv + (N - 2), N);',
        le='let k2 = S / p2(n1 - i1 - 1); if k2 == 2 * k { lemma_me_tr(nv(H, vk), xv * xv + (N - 2), lv(PP, k2), N); lemma_me_tr(nv(H, vk1), xv * yv + N - PP, lv(PP, k2 + 1), N); } else { lemma_me_tr(nv(H, vk), xv * yv + N - PP, lv(PP, k2), N); lemma_me_tr(nv(H, vk1), yv * yv + (N - 2), lv(PP, k2 + 1), N); } k = k2;',
        post='lemma_p2_0();'),
     2: dict(pre='''lemma_p2_0(); assert(S * 1 == S); if prime(N) { T = choose|t: int| 0 <= t && t + 1 < r_v && lv(PP, S * #[trigger] p2(t)) % N == 0; }''', inv=_LD + 'n2 == r_v - 1, prime(N) ==> 0 <= i2 <= T && T + 1 < r_v && me(nv(H, vk), lv(PP, S * p2(i2 as int)), N) && lv(PP, S * p2(T)) % N == 0',
        ls='xv = nv(H, vk); lemma_nv_nonneg(H, vk); lemma_iszero(H[[vk]]); if prime(N) && xv > 0 { lemma_ahead(PP, S, i2 as int, T, N, xv); lemma_me_rem(xv * xv - 2, N); assert(xv * xv >= 2) by(nonlinear_arith) requires xv > 2; } if H[[vk]].len() == 1 { lemma_val1(H[[vk]]); }', le='if prime(N) { lemma_me_tr(nv(H, vk), xv * xv - 2, lv(PP, S * p2(i2 + 1)), N); }')},
  at={'start': 'lemma_low3(h0[[slf]]); lemma_iszero(h0[[slf]]);',
     'before jacobi:0': 'lemma_val1(H[[int_d.nat]]); let q = p as int; if q == N - 2 { assert(q * q - 4 == N * (N - 4)) by(nonlinear_arith) requires q == N - 2; lemma_fundamental_div_mod_converse(q * q - 4, N, N - 4, 0); axiom_js_mod(q * q - 4, N); } ',
     'after bi_from_u32:0': 'lemma_iszero(H[[bi_from_u32_0.nat]]);',
     'ret:3': 'if prime(N) { let q = p as int; axiom_js_pzero(q * q - 4, N); assert(q * q - 4 == (q - 2) * (q + 2)) by(nonlinear_arith); axiom_prime_mul(q - 2, q + 2, N); lemma_small_mod((q - 2) as nat, N as nat); if q + 2 < N { lemma_small_mod((q + 2) as nat, N as nat); } lemma_small(h0[[slf]]); }',
     'ret:4': 'let z = nv(H, nat_sqrt_0); lemma_nv_nonneg(H, nat_sqrt_0); assert(N == z * z); if prime(N) { assert(2 <= z < N) by(nonlinear_arith) requires N == z * z, N >= 5, z >= 0; lemma_fundamental_div_mod_converse(N, z, z, 0); assert(N % z == 0); }',
     'after trailling_zeros:0': 'lemma_p2_0();',
     'after shr_inner:0': 'lemma_p2_pos(r_v as int); let q = p2(r_v as int); S = (N + 1) / q; lemma_fundamental_div_mod(N + 1, q); assert(S * q == q * S) by(nonlinear_arith); PP = p as int;',
     'before nat_eq_u32:2': 'assert(k == S); xv = nv(H, vk); yv = nv(H, vk1); if prime(N) { axiom_lucas(PP, N, S, r_v as int); let a = lv(PP, S); lemma_me_sub(a, 2, N); lemma_me_sub(a, -2, N); lemma_me_n(N); lemma_me_refl(2, N); lemma_me_add(N, 2, 0, 2, N); lemma_me_sym(N - 2, -2, N); if me(a, 2, N) { lemma_me_tr(xv, a, 2, N); lemma_me_eq(xv, 2, N); } if me(a, -2, N) { lemma_me_tr(xv, a, -2, N); lemma_me_tr(xv, -2, N - 2, N); lemma_me_eq(xv, N - 2, N); } }',
     'after nat_rem:4': 'if prime(N) && (PP * lv(PP, S) - 2 * lv(PP, S + 1)) % N == 0 { lemma_uzero(xv, yv, PP, S, N); }',
  })
L('sp', '''
pub open spec fn sp(d: int) -> bool { d == 2 || d == 3 || d == 5 || d == 7 || d == 11 || d == 13 || d == 17 || d == 19 || d == 23 || d == 29 || d == 31 || d == 37 || d == 41 || d == 43 || d == 47 || d == 53 }
/// no prime factor up to 53 other than itself
pub open spec fn nosm(n: int) -> bool { forall|d: int| sp(d) && #[trigger] (n % d) == 0 ==> n == d }
pub open spec fn inl(x: int) -> bool { x == 2 || x == 3 || x == 5 || x == 7 || x == 11 || x == 13 || x == 17 || x == 19 || x == 23 || x == 29 || x == 31 || x == 37 || x == 41 || x == 43 || x == 47 || x == 53 || x == 59 || x == 61 || x == 67 || x == 71 || x == 73 || x == 79 || x == 83 || x == 89 || x == 97 || x == 101 || x == 103 || x == 107 || x == 109 || x == 113 || x == 127 }
pub proof fn lemma_inl(x: int) requires 0 <= x < 128 ensures inl(x) ==> nosm(x) && x >= 2, prime(x) ==> inl(x)
{ if inl(x) { assert forall|d: int| sp(d) && #[trigger] (x % d) == 0 implies x == d by { if d == 2 { assert(x % 2 == 0 ==> x == 2); } if d == 3 { assert(x % 3 == 0 ==> x == 3); } if d == 5 { assert(x % 5 == 0 ==> x == 5); } if d == 7 { assert(x % 7 == 0 ==> x == 7); } if d == 11 { assert(x % 11 == 0 ==> x == 11); } if d == 13 { assert(x % 13 == 0 ==> x == 13); } if d == 17 { assert(x % 17 == 0 ==> x == 17); } if d == 19 { assert(x % 19 == 0 ==> x == 19); } if d == 23 { assert(x % 23 == 0 ==> x == 23); } if d == 29 { assert(x % 29 == 0 ==> x == 29); } if d == 31 { assert(x % 31 == 0 ==> x == 31); } if d == 37 { assert(x % 37 == 0 ==> x == 37); } if d == 41 { assert(x % 41 == 0 ==> x == 41); } if d == 43 { assert(x % 43 == 0 ==> x == 43); } if d == 47 { assert(x % 47 == 0 ==> x == 47); } if d == 53 { assert(x % 53 == 0 ==> x == 53); } } }
  else if x >= 2 { if x % 2 == 0 { assert(x % 2 == 0 && x != 2); } else if x % 3 == 0 { assert(x % 3 == 0 && x != 3); } else if x % 5 == 0 { assert(x % 5 == 0 && x != 5); } else if x % 7 == 0 { assert(x % 7 == 0 && x != 7); } else { assert(x % 11 == 0 && x != 11); } assert(!prime(x)); } }
pub proof fn lemma_m128(x: u128) requires x < 128 ensures (((1u128 << x) & 170152392186162032610075049835446806700u128) != 0) == inl(x as int)
{ assert((((1u128 << x) & 170152392186162032610075049835446806700u128) != 0) == (x == 2 || x == 3 || x == 5 || x == 7 || x == 11 || x == 13 || x == 17 || x == 19 || x == 23 || x == 29 || x == 31 || x == 37 || x == 41 || x == 43 || x == 47 || x == 53 || x == 59 || x == 61 || x == 67 || x == 71 || x == 73 || x == 79 || x == 83 || x == 89 || x == 97 || x == 101 || x == 103 || x == 107 || x == 109 || x == 113 || x == 127)) by(bit_vector) requires x < 128; }
pub proof fn lemma_pp(n: int) requires n >= 128 ensures prime(n) ==> n % 2 != 0 && n % 3 != 0 && n % 5 != 0 && n % 7 != 0 && n % 11 != 0 && n % 13 != 0 && n % 17 != 0 && n % 19 != 0 && n % 23 != 0 && n % 29 != 0 && n % 31 != 0 && n % 37 != 0 && n % 41 != 0 && n % 43 != 0 && n % 47 != 0 && n % 53 != 0, n % 2 != 0 && n % 3 != 0 && n % 5 != 0 && n % 7 != 0 && n % 11 != 0 && n % 13 != 0 && n % 17 != 0 && n % 19 != 0 && n % 23 != 0 && n % 29 != 0 && n % 31 != 0 && n % 37 != 0 && n % 41 != 0 && n % 43 != 0 && n % 47 != 0 && n % 53 != 0 ==> nosm(n),
  (n % 4127218095) % 3 == n % 3, (n % 4127218095) % 5 == n % 5, (n % 4127218095) % 7 == n % 7, (n % 4127218095) % 11 == n % 11, (n % 4127218095) % 13 == n % 13, (n % 4127218095) % 17 == n % 17, (n % 4127218095) % 19 == n % 19, (n % 4127218095) % 23 == n % 23, (n % 4127218095) % 37 == n % 37, (n % 3948078067) % 29 == n % 29, (n % 3948078067) % 31 == n % 31, (n % 3948078067) % 41 == n % 41, (n % 3948078067) % 43 == n % 43, (n % 3948078067) % 47 == n % 47, (n % 3948078067) % 53 == n % 53
{ lemma_mod_mod(n, 3, 1375739365); lemma_mod_mod(n, 5, 825443619); lemma_mod_mod(n, 7, 589602585); lemma_mod_mod(n, 11, 375201645); lemma_mod_mod(n, 13, 317478315); lemma_mod_mod(n, 17, 242777535); lemma_mod_mod(n, 19, 217222005); lemma_mod_mod(n, 23, 179444265); lemma_mod_mod(n, 37, 111546435); lemma_mod_mod(n, 29, 136140623); lemma_mod_mod(n, 31, 127357357); lemma_mod_mod(n, 41, 96294587); lemma_mod_mod(n, 43, 91815769); lemma_mod_mod(n, 47, 84001661); lemma_mod_mod(n, 53, 74492039);
  if n % 2 != 0 && n % 3 != 0 && n % 5 != 0 && n % 7 != 0 && n % 11 != 0 && n % 13 != 0 && n % 17 != 0 && n % 19 != 0 && n % 23 != 0 && n % 29 != 0 && n % 31 != 0 && n % 37 != 0 && n % 41 != 0 && n % 43 != 0 && n % 47 != 0 && n % 53 != 0 { assert forall|d: int| sp(d) && #[trigger] (n % d) == 0 implies n == d by { } } }
''')
F(NAT + 'probably_prime_test', 'prime_test', props='C21 C07 C08', req='cn(H, slf), n < usize::MAX',
  ens='''ex(O, H), final(rng).src@ == old(rng).src@, na(O, slf) || nv(O, slf) <= 1 ==> !r, !na(O, slf) && prime(nv(O, slf)) ==> r,
     r ==> nosm(nv(O, slf)), r && nv(O, slf) >= 128 ==> nv(O, slf) % 2 == 1 && mrall(nv(O, slf), n + 1)''',
  ghost=['N = nv(h@, slf)'],
  at={'start': 'if !na(h0, slf) { lemma_low3(h0[[slf]]); lemma_iszero(h0[[slf]]); if h0[[slf]].len() == 1 { lemma_val1(h0[[slf]]); } let w = h0[[slf]][0]; let y = w as u128; assert((y & 1u128) == y % 2) by(bit_vector); if w < 128 { lemma_m128(y); lemma_inl(y as int); } if h0[[slf]].len() > 1 { lemma_top(h0[[slf]]); lemma_pw_mono(1, h0[[slf]].len() - 1); assert(pw(1) == 0x1_0000_0000 * pw(0)); } if N >= 128 { lemma_pp(N); } }'})
F(NAT + 'rem_inner_u64', 'rem_inner_u64', props='C21', pure=True, req='ok(H, slf), rhs != 0', ens='r == nv(H, slf) % rhs as int',
  loops={0: dict(invx='t1 == H[[slf]].len(), pos0 <= t1, rhs_1 == rhs, r_v < rhs_1, r_v == rv(H[[slf]], t1 - pos0, pos0 as int) % rhs as int', ens='pos0 == t1, t1 == H[[slf]].len(), r_v < rhs, r_v == rv(H[[slf]], 0, t1 as int) % rhs as int', dec='t1 - pos0', ghost=['c0 = r_v', 'q0 = pos0'],
    pre='lemma_small_mod(0, rhs as nat);',
    le='''let s = H[[slf]]; let n = q0 as int; let lo = t1 - n - 1; let m = rhs as int; let B = 0x1_0000_0000int; let x = s[lo]; let v1 = c0 * B + x; assert(((c0 << 32) | (x as u128)) == c0 * 0x1_0000_0000 + x) by(bit_vector) requires c0 < 0x1_0000_0000_0000_0000; lemma_rv_low(s, lo, n); lemma_mod_step(c0 as int, rv(s, lo + 1, n), m, x as int, B); lemma_mod_bound(v1, m);
       if pos0 == q0 + 2 { let y = s[lo - 1]; let w = v1 as u128; assert(((w << 32) | (y as u128)) == w * 0x1_0000_0000 + y) by(bit_vector) requires w < 0x1_0000_0000_0000_0000_0000_0000; lemma_rv_low(s, lo - 1, n + 1); lemma_mod_step(v1 % m, rv(s, lo, n + 1), m, y as int, B); lemma_mod_step(v1 % m, v1, m, y as int, B); lemma_mod_bound(v1 * B + y, m); }''')})
L('gp', '''
pub proof fn lemma_gp() ensures forall|x: u32, s: u32| s <= 30 ==> #[trigger] (x | (3u32 << s)) != 0, forall|x: u32| (#[trigger] (x | 1u32)) != 0 && (x | 1u32) % 2 == 1, forall|x: u32| #[trigger] (x | 0x8000_0000u32) != 0
{ assert forall|x: u32, s: u32| s <= 30 implies #[trigger] (x | (3u32 << s)) != 0 by { assert((x | (3u32 << s)) != 0) by(bit_vector) requires s <= 30; } assert(forall|x: u32| (#[trigger] (x | 1u32)) != 0 && (x | 1u32) % 2 == 1) by(bit_vector); assert(forall|x: u32| #[trigger] (x | 0x8000_0000u32) != 0) by(bit_vector); }
pub proof fn lemma_sh5up(n: usize) requires n <= usize::MAX - 31 ensures (n + 31) as usize >> 5 == (n + 31) / 32, n & 31 == n % 32 { let m = (n + 31) as usize; assert(m >> 5 == m / 32) by(bit_vector); assert(n & 31 == n % 32) by(bit_vector); }
''')
_GP = 'ex(h0, H), h0.len() <= p < H.len(), rng.src@ == old(rng).src@, forall|x: u32, s: u32| s <= 30 ==> #[trigger] (x | (3u32 << s)) != 0'
_GW = _GP + ', H[[p]].len() == len, len >= 1'
F(NAT + 'generate_prime', 'generate_prime', props='C21 C06', nodec=True,
  req='bits_len_v <= usize::MAX - 31, test_round_num < usize::MAX',
  ens='''ex(O, H), final(rng).src@ == old(rng).src@, bits_len_v < 2 ==> r is Err, bits_len_v >= 2 ==> r is Ok,
     r is Ok ==> ({ let v = r->Ok_0; v >= O.len() && cn(H, v) && !na(H, v) && nv(H, v) % 2 == 1 && blen(nv(H, v)) == bits_len_v && nosm(nv(H, v)) && (nv(H, v) >= 128 ==> mrall(nv(H, v), test_round_num + 1)) })''',
  ghost=['mut hg: Hp = h@'],
  loops={0: dict(inv=_GP),
     1: dict(inv=_GP + ', n1 == len, H[[p]].len() <= i1'),
     2: dict(inv=_GW + ', t21 == p, t20 == len, n2 == len, i2 >= 1 ==> H[[p]][len - 1] != 0'),
     3: dict(ghost=['j3 = i3'], post='lemma_low3(H[[p]]);', invx=_GW + ', t29 == 1048576, n3 * 2 >= 1048576, (n3 - 1) * 2 < 1048576, modulus < 16294579238595022365, canon(H[[p]]), H[[p]][0] % 2 == 1', ens=_GP + ', cn(H, p), !na(H, p), nv(H, p) % 2 == 1', ls='assert((i3 * 2) < 1048576); lemma_low3(H[[p]]); let dl = (i3 * 2) as u64; assert(dl & 0xffff_ffff == dl) by(bit_vector) requires dl < 1048576;'),
     4: dict(inv='i3 == j3, i3 < n3, n4 == 15, forall|k: int| 0 <= k < 15 ==> t32[k] != 0')},
  at={'start': 'lemma_one_shl(); lemma_gp(); lemma_sh5up(bits_len_v);'})
