# ---- Montgomery multiplication and modular powers
L('lemma_mont_low', '''
/// adding t*m with t = z0*k clears the low word when m0*k = -1 (mod 2^32)
pub proof fn lemma_mont_low(z0: int, m0: int, k: int, t: int, w: int) requires (m0 * k + 1) % 0x1_0000_0000 == 0, t == (z0 * k) % 0x1_0000_0000, 0 <= w < 0x1_0000_0000, (z0 + m0 * t - w) % 0x1_0000_0000 == 0 ensures w == 0
{ let B = 0x1_0000_0000int; lemma_fundamental_div_mod(z0 * k, B); lemma_fundamental_div_mod(m0 * k + 1, B); lemma_fundamental_div_mod(z0 + m0 * t - w, B); let q = (z0 * k) / B; let u = (m0 * k + 1) / B; let s = (z0 + m0 * t - w) / B;
  assert(w == B * (z0 * u - m0 * q - s)) by(nonlinear_arith) requires z0 * k == B * q + t, m0 * k + 1 == B * u, z0 + m0 * t - w == B * s;
  let f = z0 * u - m0 * q - s; assert(f == 0) by(nonlinear_arith) requires w == B * f, 0 <= w < B, B > 0; }
/// the arithmetic of one row of a Montgomery product
pub proof fn lemma_mont_alg(V: int, W1: int, W2: int, c: int, c2: int, c3: int, cy: int, c1: int, X: int, d: int, M: int, t: int, Y: int, Q: int, p: int, pn: int)
  requires p * V + c * (p * pn) == X * Y + Q * M, W1 + c2 * pn == X * d + V, W2 + c3 * pn == M * t + W1, c + c2 + c3 == cy + c1 * 0x1_0000_0000
  ensures p * W2 + cy * (p * pn) + c1 * (0x1_0000_0000 * (p * pn)) == X * (Y + d * p) + (Q + t * p) * M
{ let R = p * pn; assert(p * W1 + c2 * R == (X * d) * p + p * V) by(nonlinear_arith) requires W1 + c2 * pn == X * d + V, R == p * pn;
  assert(p * W2 + c3 * R == (t * p) * M + p * W1) by(nonlinear_arith) requires W2 + c3 * pn == M * t + W1, R == p * pn;
  assert(X * (Y + d * p) == X * Y + (X * d) * p) by(nonlinear_arith); assert((Q + t * p) * M == Q * M + (t * p) * M) by(nonlinear_arith);
  assert(c * R + c2 * R + c3 * R == cy * R + c1 * (0x1_0000_0000 * R)) by(nonlinear_arith) requires c + c2 + c3 == cy + c1 * 0x1_0000_0000; }
pub open spec fn zlow(s: Seq<u32>, i: int) -> bool { forall|k: int| 0 <= k < i ==> s[k] == 0 }
pub open spec fn mrow(z: Seq<u32>, c: int, X: int, y: Seq<u32>, M: int, Q: int, n: int, i: int) -> bool { zlow(z, i) && 0 <= Q < pw(i) && rv(z, 0, n + i) + c * pw(n + i) == X * rv(y, 0, i) + Q * M }
pub open spec fn keeps(a: Seq<u32>, b: Seq<u32>, lo: int, n: int) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() && (k < lo || k >= lo + n) ==> a[k] == b[k] }
pub proof fn lemma_mont_row(s0: Seq<u32>, s1: Seq<u32>, s2: Seq<u32>, s3: Seq<u32>, X: int, y: Seq<u32>, m: Seq<u32>, Q: int, n: int, i: int, c: int, c2: int, c3: int, cy: int, c1: int, t: int, k: int)
  requires 0 <= i < n, n == m.len(), n == y.len(), s0.len() == 2 * n, mrow(s0, c, X, y, val(m), Q, n, i), keeps(s0, s1, i, n), keeps(s1, s2, i, n), s3 == s2.update(n + i, cy as u32), 0 <= cy < 0x1_0000_0000,
    rv(s1, i, n) + c2 * pw(n) == X * y[i] + rv(s0, i, n), rv(s2, i, n) + c3 * pw(n) == val(m) * t + rv(s1, i, n), c + c2 + c3 == cy + c1 * 0x1_0000_0000,
    (m[0] * k + 1) % 0x1_0000_0000 == 0, t == (s1[i] * k) % 0x1_0000_0000
  ensures mrow(s3, c1, X, y, val(m), Q + t * pw(i), n, i + 1)
{
  let p = pw(i); let pn = pw(n); lemma_pw_add(i, n); lemma_pw_pos(i); lemma_pw_pos(n);
  lemma_rv_split(s0, 0, i, n); lemma_rv_zero(s0, 0, i);
  lemma_mont_alg(rv(s0, i, n), rv(s1, i, n), rv(s2, i, n), c, c2, c3, cy, c1, X, y[i] as int, val(m), t, rv(y, 0, i), Q, p, pn);
  lemma_step(y, 0, i);
  assert(zlow(s2, i)); lemma_rv_split(s3, 0, i, n); lemma_rv_zero(s3, 0, i); lemma_rv_eq(s3, i, s2, i, n); lemma_step(s3, 0, n + i); 
  assert(rv(s3, 0, n + i) == p * rv(s2, i, n)); assert(pw(n + i) == p * pn); assert(s3[n + i] == cy as u32);
  assert(rv(s3, 0, n + i + 1) == p * rv(s2, i, n) + cy * (p * pn));
  // the low word
  lemma_rv_split(s1, i, 1, n - 1); lemma_rv_split(s2, i, 1, n - 1); lemma_rv_split(m, 0, 1, n - 1); lemma_step(s1, i, 0); lemma_step(s2, i, 0); lemma_step(m, 0, 0); lemma_step(m, 0, n - 1); assert(pw(1) == 0x1_0000_0000 * pw(0));
  lemma_pw_add(1, n - 1); let B = 0x1_0000_0000int; let a = s1[i] as int; let w = s2[i] as int; let m0 = m[0] as int; let h1 = rv(s1, i + 1, n - 1); let h2 = rv(s2, i + 1, n - 1); let hm = rv(m, 1, n - 1); let q = pw(n - 1);
  assert(a * 1 == a); assert(w * 1 == w); assert(m0 * 1 == m0);
  assert(a + m0 * t - w == B * (h2 + c3 * q - hm * t - h1)) by(nonlinear_arith) requires w + B * h2 + c3 * (B * q) == (m0 + B * hm) * t + (a + B * h1);
  lemma_fundamental_div_mod_converse(a + m0 * t - w, B, h2 + c3 * q - hm * t - h1, 0);
  lemma_mont_low(a, m0, k, t, w);
  assert(0 <= t < B) by { lemma_mod_bound(a * k, B); } assert(Q + t * p < B * p) by(nonlinear_arith) requires Q < p, t <= B - 1, p >= 1; assert(t * p >= 0) by(nonlinear_arith) requires t >= 0, p >= 1;
}
/// the end of a Montgomery product: V = rv(z, n, n) + c B^n satisfies V B^n = X Y + Q M
pub proof fn lemma_mont_fin(z: Seq<u32>, c: int, x: Seq<u32>, y: Seq<u32>, m: Seq<u32>, Q: int, n: int)
  requires n >= 0, x.len() == n, y.len() == n, m.len() == n, z.len() == 2 * n, mrow(z, c, val(x), y, val(m), Q, n, n), 0 <= c <= 1
  ensures cg((rv(z, n, n) + c * pw(n)) * pw(n), val(x) * val(y), val(m), -Q), rv(z, n, n) + c * pw(n) - val(m) < pw(n), val(y) == 1 ==> rv(z, n, n) + c * pw(n) <= val(m)
{ let P = pw(n); let R = rv(z, n, n); lemma_rv_split(z, 0, n, n); lemma_rv_zero(z, 0, n); lemma_pw_add(n, n); lemma_pw_pos(n); lemma_rv_bound(x, 0, n); lemma_rv_bound(y, 0, n); lemma_rv_bound(m, 0, n);
  let X = val(x); let Y = val(y); let M = val(m); let V = R + c * P; assert(V * P == P * R + c * (P * P)) by(nonlinear_arith) requires V == R + c * P;
  assert(V * P == X * Y + Q * M); assert((-Q) * M == -(Q * M)) by(nonlinear_arith); assert(V < Y + M || V == 0) by(nonlinear_arith) requires V * P == X * Y + Q * M, 0 <= X < P, 0 <= Q < P, Y >= 0, M >= 0, P >= 1; if Y == 1 { assert(V <= M) by(nonlinear_arith) requires V * P == X * Y + Q * M, Y == 1, 0 <= X < P, 0 <= Q < P, M >= 0, P >= 1; } }
''')
F(NAT + 'montgomery', 'montgomery', props='C09 C25',
  req='ok(H, z), ok(H, x), ok(H, y), ok(H, m), H[[x]].len() == n, H[[y]].len() == n, H[[m]].len() == n, 1 <= n, z != x, z != y, z != m, (H[[m]][0] * k + 1) % 0x1_0000_0000 == 0',
  ens='fr(O, H, z), H.len() == O.len(), H[[z]].len() == n, cgr(rv(H[[z]], 0, n as int) * pw(n as int), nv(O, x) * nv(O, y), nv(O, m)), nv(O, y) == 1 ==> nv(H, z) <= nv(O, m)',
  ghost=['mut Q: int = 0', 'mut hA: Hp = h@', 'mut hx: Hp = h@', 'mut s1: Seq<u32> = h@[0]', 'mut s2: Seq<u32> = h@[0]'],
  loops={0: dict(inv='fr(h0, H, z), H.len() == h0.len(), H[[z]].len() == 2 * n, c <= 1, mrow(H[[z]], c as int, nv(h0, x), h0[[y]], nv(h0, m), Q, n as int, i0 as int)',
     ghost=['c0 = c', 'q0 = Q'], pre='lemma_rv_zero(H[[z]], 0, n as int); lemma_mul_basics(pw(n as int)); lemma_mul_basics(nv(h0, x)); lemma_mul_basics(nv(h0, m));',
     le='''lemma_mont_row(hl0[[z]], s1, s2, H[[z]], nv(h0, x), h0[[y]], h0[[m]], q0, n as int, i0 as int, c0 as int, c2 as int, c3 as int, cy as int, c as int, t as int, k as int); Q = q0 + t * pw(i0 as int);''',
     post='hA = H; lemma_mont_fin(H[[z]], c as int, h0[[x]], h0[[y]], h0[[m]], Q, n as int);'),
    1: dict(inv='frr(hA, H, z, 0, i1 as int), H.len() == h0.len(), c == 0, forall|k: int| 0 <= k < i1 ==> H[[z]][k] == hA[[z]][n + k]')},
  at={'fi:0': 'assert(n << 1usize == 2 * n) by(bit_vector) requires n <= 0x1_0000_0000;', 'after add_mul_vvw:0': 's1 = H[[z]];', 'after add_mul_vvw:1': 's2 = H[[z]];',
    'thenend:2': '''let P = pw(n as int); let R = rv(hA[[z]], n as int, n as int); let M = nv(h0, m); let V = R + c * P; lemma_rv_bound(H[[z]], 0, n as int); lemma_rv_bound(h0[[m]], 0, n as int); assert(c == 1); assert(h0[[m]] == hA[[m]]);  let W = rv(H[[z]], 0, n as int); let b = sub_vv_inner_0 as int; assert(hA[[m]].len() == n); assert(pv(hA, z1, n as int) == R); assert(pv(hA, Ptr { c: m, o: 0usize }, n as int) == M); assert(pv(H, z0, n as int) == W); assert(W - b * P == R - M);
       assert(b == 1) by { if b == 0 { assert(0 * P == 0); assert(W == R - M); assert(R + c as int * P - M < P); assert(c as int * P == P) by(nonlinear_arith) requires c == 1; assert(W < 0); assert(false); } assert(1 * P == P); } assert((V - M) * P + (P - Q) * M == nv(h0, x) * nv(h0, y)) by(nonlinear_arith) requires V * P + (-Q) * M == nv(h0, x) * nv(h0, y); lemma_cgr(W * P, nv(h0, x) * nv(h0, y), M, P - Q);''',
    'elseend:2': '''lemma_rv_eq(H[[z]], 0, hA[[z]], n as int, n as int); lemma_mul_basics(pw(n as int)); lemma_cgr(rv(H[[z]], 0, n as int) * pw(n as int), nv(h0, x) * nv(h0, y), nv(h0, m), -Q);''',
    'ret': 'lemma_rv_eq(H[[z]], 0, hx[[z]], 0, n as int);', 'fi:2': 'hx = H;',
      })
L('lemma_nwt', '''
/// one step of the Newton iteration for the inverse of an odd a modulo 2^32
pub proof fn lemma_nwt(a: u32, k: u32, t: u32, t2: u32, k2: u32, i: int)
  requires (a * k - 1 + t * t) % 0x1_0000_0000 == 0, t as int % p2(i) == 0, 1 <= i <= 16, t2 == (t * t) % 0x1_0000_0000, k2 == (k * ((t2 + 1) % 0x1_0000_0000)) % 0x1_0000_0000
  ensures (a * k2 - 1 + t2 * t2) % 0x1_0000_0000 == 0, t2 as int % p2(2 * i) == 0
{ let B = 0x1_0000_0000int; let s = t * t; lemma_fundamental_div_mod(s as int, B); let e = s / B; let w = (t2 + 1) as int; lemma_fundamental_div_mod(w, B); let f = w / B; let v = w % B; lemma_fundamental_div_mod(k * v, B); let g = (k * v) / B;
  lemma_fundamental_div_mod(a * k - 1 + s, B); let u = (a * k - 1 + s) / B; assert(a * k == 1 - s + B * u); assert(s == B * e + t2);
  // a k2 = a k w - B(..) = (1 - s + B u)(1 + t2) - B(..), s = t2 + B e
  let A = a as int; let K = k as int; let K2 = k2 as int; let T = t2 as int;
  assert(A * K2 == (A * K) * v - B * (A * g)) by(nonlinear_arith) requires K2 == K * v - B * g;
  assert((A * K) * v == (A * K) * w - B * (f * (A * K))) by(nonlinear_arith) requires v == w - B * f;
  assert((A * K) * w == 1 - T * T + B * ((u - e) * (1 + T))) by(nonlinear_arith) requires A * K == 1 - T - B * e + B * u, w == 1 + T;
  let c = (u - e) * (1 + T) - f * (A * K) - A * g; lemma_fundamental_div_mod_converse(A * K2 - 1 + T * T, B, c, 0);
  let P = p2(i); lemma_p2_pos(i); lemma_fundamental_div_mod(t as int, P); let r = t as int / P; lemma_p2_add(i, i); lemma_p2_add(2 * i, 32 - 2 * i); lemma_p2_0(); let D = p2(2 * i); let F = p2(32 - 2 * i); lemma_p2_pos(2 * i);
  assert(s == D * (r * r)) by(nonlinear_arith) requires t as int == P * r, s == t * t, D == P * P;
  assert(T == D * (r * r - F * e)) by(nonlinear_arith) requires s == D * (r * r), s == B * e + T, B == D * F;
  lemma_fundamental_div_mod_converse(T, D, r * r - F * e, 0); }
''')
L('lemma_nwt0', '''
pub open spec fn k0ok(a: u32, k: u32) -> bool { (a * k + 1) % 0x1_0000_0000 == 0 }
pub proof fn lemma_nwt0(a: u32, k: u32, t: u32) requires a % 2 == 1, k == (2 - a) % 0x1_0000_0000, t == a - 1 ensures (a * k - 1 + t * t) % 0x1_0000_0000 == 0, t as int % p2(1) == 0
{ let A = a as int; let B = 0x1_0000_0000int; lemma_fundamental_div_mod(2 - A, B); let g = (2 - A) / B; let K = k as int; let T = t as int; assert(A * K - 1 + T * T == B * (-(A * g))) by(nonlinear_arith) requires K == 2 - A - B * g, T == A - 1; lemma_fundamental_div_mod_converse(A * K - 1 + T * T, B, -(A * g), 0); lemma_p2_0(); lemma_p2_1(0); }
pub proof fn lemma_nwt_end(a: u32, k: u32, t: u32) requires (a * k - 1 + t * t) % 0x1_0000_0000 == 0, t as int % p2(32) == 0 ensures k0ok(a, ((0x1_0000_0000 - k) % 0x1_0000_0000) as u32)
{ lemma_p2_0(); lemma_small_mod(t as nat, 0x1_0000_0000); assert(t == 0); assert(t * t == 0) by(nonlinear_arith) requires t == 0; let A = a as int; let K = k as int; let B = 0x1_0000_0000int; let n = (B - K) % B; lemma_fundamental_div_mod(B - K, B); let g = (B - K) / B; lemma_fundamental_div_mod(A * K - 1, B); let u = (A * K - 1) / B;
  assert(A * n + 1 == B * (A - A * g - u)) by(nonlinear_arith) requires n == B - K - B * g, A * K - 1 == B * u; lemma_fundamental_div_mod_converse(A * n + 1, B, A - A * g - u, 0); }
''')
L('lemma_cancel2', '''
/// an odd modulus: factors of two cancel
pub proof fn lemma_cancel2(d: int, m: int, k: int) requires k >= 0, m > 0, m % 2 == 1, (d * p2(k)) % m == 0 ensures d % m == 0 decreases k
{ if k == 0 { lemma_p2_0(); assert(d * 1 == d); } else { lemma_p2_1(k - 1); let e = d * p2(k - 1); assert(d * p2(k) == 2 * e) by(nonlinear_arith) requires p2(k) == 2 * p2(k - 1), e == d * p2(k - 1);
    lemma_fundamental_div_mod(2 * e, m); let u = (2 * e) / m; let s = m / 2; let v = e - s * u; assert(e == m * v) by(nonlinear_arith) requires 2 * e == m * u, m == 2 * s + 1, v == e - s * u;
    lemma_fundamental_div_mod_converse(e, m, v, 0); lemma_cancel2(d, m, k - 1); } }
/// Z B^n = U = W B^n modulo an odd M gives Z = W
pub proof fn lemma_mcancel(Z: int, W: int, U: int, n: int, M: int) requires n >= 0, M > 0, M % 2 == 1, cgr(Z * pw(n), U, M), U % M == (W * pw(n)) % M ensures Z % M == W % M
{ let R = pw(n); let c = choose|c: int| #[trigger] cg(Z * R, U, M, c); assert(Z * R + c * M == U); lemma_fundamental_div_mod(U, M); lemma_fundamental_div_mod(W * R, M); let d = Z - W; let q = U / M - (W * R) / M - c;
  assert(d * R == M * q) by(nonlinear_arith) requires Z * R + c * M == U, U == M * (U / M) + U % M, W * R == M * ((W * R) / M) + U % M, d == Z - W, q == U / M - (W * R) / M - c;
  lemma_fundamental_div_mod_converse(d * R, M, q, 0); lemma_p2_pw(n); lemma_cancel2(d, M, 32 * n); lemma_fundamental_div_mod(d, M); lemma_fundamental_div_mod(W, M); lemma_mod_bound(W, M); let k = d / M; let l = W / M; assert(Z == M * (k + l) + W % M) by(nonlinear_arith) requires d == M * k, W == M * l + W % M, d == Z - W; lemma_fundamental_div_mod_converse(Z, M, k + l, W % M); }
pub proof fn lemma_rv_push(s: Seq<u32>, lo: int, n: int) requires n >= 0 ensures rv(s, lo, n + 1) == s[lo] + 0x1_0000_0000 * rv(s, lo + 1, n)
{ lemma_rv_split(s, lo, 1, n); lemma_step(s, lo, 0); let y = rv(s, lo + 1, n); let x = s[lo] as int; let p0 = pw(0); let p1 = pw(1); assert(p0 == 1); assert(x * p0 == x) by(nonlinear_arith) requires p0 == 1; assert(rv(s, lo, 0) == 0); assert(rv(s, lo, 1) == x); assert(p1 * y == 0x1_0000_0000 * y) by(nonlinear_arith) requires p1 == 0x1_0000_0000; }
pub proof fn lemma_modd(s: Seq<u32>) requires s.len() > 0 ensures val(s) % 2 == s[0] % 2
{ lemma_rv_push(s, 0, s.len() - 1); let r2 = 0x8000_0000 * rv(s, 1, s.len() - 1); assert(val(s) == s[0] + 2 * r2); }
pub proof fn lemma_lenle(s: Seq<u32>, t: Seq<u32>) requires canon(s), canon(t), t.len() > 0, val(s) < val(t) ensures s.len() <= t.len() { if s.len() > t.len() { lemma_len_cmp(t, s); } }
/// zero words were appended
pub open spec fn padz(s: Seq<u32>, t: Seq<u32>) -> bool { s.len() <= t.len() && forall|k: int| 0 <= k < t.len() ==> t[k] == (if k < s.len() { s[k] } else { 0 }) }
pub proof fn lemma_padz(s: Seq<u32>, t: Seq<u32>) requires padz(s, t) ensures val(t) == val(s) { lemma_rv_top0(t, 0, s.len() as int, t.len() as int); lemma_rv_eq(t, 0, s, 0, s.len() as int); }
/// cell c holds the Montgomery form of a
#[verifier::opaque] pub open spec fn mfv(s: Seq<u32>, n: int, a: int, M: int) -> bool { val(s) % M == (a * pw(n)) % M }
pub proof fn lemma_mfv(s: Seq<u32>, n: int, a: int, M: int) ensures mfv(s, n, a, M) == (val(s) % M == (a * pw(n)) % M) { reveal(mfv); }
pub open spec fn mf(h: Hp, c: usize, n: int, a: int, M: int) -> bool { c < h.len() && h[c as int].len() == n && mfv(h[c as int], n, a, M) }
pub proof fn lemma_mf_mul(h1: Hp, h2: Hp, z: usize, x: usize, y: usize, n: int, a: int, b: int, M: int)
  requires n >= 0, M > 0, M % 2 == 1, z < h2.len(), h2[z as int].len() == n, cgr(rv(h2[z as int], 0, n) * pw(n), nv(h1, x) * nv(h1, y), M), mf(h1, x, n, a, M), mf(h1, y, n, b, M) ensures mf(h2, z, n, a * b, M)
{ reveal(mfv); let R = pw(n); let u = nv(h1, x); let v = nv(h1, y); lemma_mulmod(u, v, M); lemma_mulmod(a * R, b * R, M); assert((a * R) * (b * R) == ((a * b) * R) * R) by(nonlinear_arith); lemma_mcancel(nv(h2, z), (a * b) * R, u * v, n, M); }
pub proof fn lemma_mod_same(a: int, b: int, c: int, m: int) requires m > 0, a % m == b % m ensures (a * c) % m == (b * c) % m { lemma_mulmod(a, c, m); lemma_mulmod(b, c, m); }
/// the window of 4 bits of a word a that the loop looks at: yi holds the remaining bits at the top
#[verifier::opaque] pub open spec fn win(a: int, yi: int, q: int, j: int) -> bool { 0 <= a - p2(32 - 4 * j) * q < p2(32 - 4 * j) && yi == (a - p2(32 - 4 * j) * q) * p2(4 * j) }
pub proof fn lemma_win0(a: int) requires 0 <= a < 0x1_0000_0000 ensures win(a, a, 0, 0), forall|y: int, q: int| #[trigger] win(a, y, q, 0) ==> q == 0
{ reveal(win); lemma_p2_0(); assert forall|y: int, q: int| #[trigger] win(a, y, q, 0) implies q == 0 by { let r = p2(32) * q; assert(q == 0) by(nonlinear_arith) requires r == 0x1_0000_0000 * q, 0 <= a - r < 0x1_0000_0000, 0 <= a < 0x1_0000_0000; } assert(p2(32) * 0 == 0); assert(a * 1 == a); }
pub proof fn lemma_win8(a: int, y: int, q: int) requires win(a, y, q, 8) ensures q == a { reveal(win); lemma_p2_0(); let p = p2(0); assert(p * q == q) by(nonlinear_arith) requires p == 1; }
pub proof fn lemma_win(a: int, yi: u32, q: int, j: int) requires 0 <= j < 8, win(a, yi as int, q, j) ensures win(a, (yi << 4) as int, 16 * q + ((yi as usize) >> 28) as int, j + 1), ((yi as usize) >> 28) < 16
{ reveal(win); assert(((yi as usize) >> 28) == yi as usize / 0x1000_0000) by(bit_vector); assert(((yi as usize) >> 28) < 16) by(bit_vector); assert((yi << 4) == (yi & 0xfff_ffff) * 16) by(bit_vector); assert((yi & 0xfff_ffff) == yi % 0x1000_0000) by(bit_vector);
  let P = p2(32 - 4 * j); let S = p2(4 * j); let P2 = p2(28 - 4 * j); let S2 = p2(4 * j + 4); lemma_p2_add(4, 28 - 4 * j); lemma_p2_add(4, 4 * j); lemma_p2_add(4 * j, 28 - 4 * j); lemma_p2_0(); assert(p2(4) == 16) by { lemma_p2_1(0); lemma_p2_1(1); lemma_p2_1(2); lemma_p2_1(3); } assert(p2(28) == 0x1000_0000) by { lemma_p2_add(28, 4); }
  lemma_p2_pos(4 * j); lemma_p2_pos(28 - 4 * j); let r = a - P * q; let d = yi as int / 0x1000_0000; let e = yi as int % 0x1000_0000; lemma_fundamental_div_mod(yi as int, 0x1000_0000); let r2 = r - P2 * d;
  assert(r2 * S == e) by(nonlinear_arith) requires r * S == 0x1000_0000 * d + e, r2 == r - P2 * d, S * P2 == 0x1000_0000;
  assert(0 <= r2 < P2) by(nonlinear_arith) requires r2 * S == e, 0 <= e < 0x1000_0000, S * P2 == 0x1000_0000, S >= 1, P2 >= 1;
  assert(a - P2 * (16 * q + d) == r2) by(nonlinear_arith) requires r == a - P * q, P == 16 * P2, r2 == r - P2 * d; assert(r2 * S2 == e * 16) by(nonlinear_arith) requires r2 * S == e, S2 == 16 * S; assert(32 - 4 * (j + 1) == 28 - 4 * j && 4 * (j + 1) == 4 * j + 4); }
''')
L('mctx', '''
/// what the exponentiation knows about its operands throughout
pub open spec fn mctx(h: Hp, z: usize, x: usize, y: usize, m: usize, N: int, M: int, X: int) -> bool { z < h.len() && x < h.len() && y < h.len() && m < h.len() && z != x && z != y && z != m && N == h[m as int].len() && 1 <= N <= 0x1_0000_0000 && M == nv(h, m) && M > 0 && M % 2 == 1 && X == nv(h, x) && h[y as int].len() >= 1 }
/// the sixteen power cells and the temporaries are distinct and new
pub open spec fn pctx(o: Hp, n: int, p: Seq<usize>, one: usize, rr: usize, x1: usize) -> bool { p.len() == 16 && o.len() <= x1 < rr && rr < one && one < p[0] && p[15] < n && forall|i: int, j: int| 0 <= i < j < 16 ==> p[i] < p[j] }
pub open spec fn pok(h: Hp, p: Seq<usize>, k: int, N: int, X: int, M: int) -> bool { forall|j: int| 0 <= j < k ==> mf(h, #[trigger] p[j], N, ip(X, j), M) }
''')
def _sq(k, z, x): return {'before montgomery:%d' % k: 'hp = H;', 'after montgomery:%d' % k: 'lemma_mf_mul(hp, H, %s, %s, %s, N, ip(X, %d * E), ip(X, %d * E), M); lemma_ip_add(X, %d * E, %d * E);' % ((z, x, x) + (2 ** (k - 3),) * 4)}
F(NAT + 'exp_montogomery', 'exp_montogomery', props='C09', iso=True, rlimit=200,
  req='ok(H, z), cn(H, x), !na(H, x), cn(H, y), !na(H, y), cn(H, m), nv(H, m) > 0, H[[m]][0] % 2 == 1, z != x, z != y, z != m',
  ens='fr(O, H, z), cn(H, z), !na(H, z), nv(H, z) == ip(nv(O, x), nv(O, y)) % nv(O, m)',
  ghost=['M = nv(h@, m)', 'X = nv(h@, x)', 'N = h@[m as int].len() as int', 'R = pw(N)', 'a = h@[m as int][0]', 'mut e: int = 1', 'mut hp: Hp = h@', 'mut hq: Hp = h@', 'mut hm: Hp = h@', 'mut hb: Hp = h@', 'mut hc: Hp = h@', 'mut hd: Hp = h@', 'mut he: Hp = h@', 'mut E: int = 0', 'mut E0: int = 0', 'mut q: int = 0'],
  loops={
    0: dict(inv='(a * k0 - 1 + t * t) % 0x1_0000_0000 == 0, t as int % p2(e) == 0, i == e, e == 1 || e == 2 || e == 4 || e == 8 || e == 16 || e == 32', dec='32 - i', ghost=['kk = k0', 'tt = t'],
       pre='lemma_nwt0(a, k0, t);', ls='lemma_p2_0(); lemma_p2_1(0);', le='lemma_nwt(a, kk, tt, t, k0, e); e = 2 * e;', post='lemma_nwt_end(a, k0, t);'),
    1: dict(pre='assert(1usize << 4usize == 16usize) by(bit_vector);', inv='mctx(h0, z, x, y, m, N, M, X), num_words == N, pctx(h0, H.len() as int, powers@, one, rr, x_1), k0ok(h0[[m]][0], k0), n == 4, n1 == 14, ex(h0, H), H.len() == hb.len(), H[[one]] == hb[[one]], pok(H, powers@, 2 + i1, N, X, M)'),
    2: dict(inv='z < H.len(), t22 != z, t22 < hc.len(), n2 == hc[[t22]].len(), fr(hc, H, z), H.len() == hc.len(), H[[z]] == hc[[t22]].take(i2 as int)', pre='hc = H; assert(H[[z]] =~= hc[[t22]].take(0));', le='assert(H[[z]] =~= hc[[t22]].take(i2 + 1));', post='assert(H[[z]] =~= hc[[t22]]);'),
    3: dict(inv='mctx(h0, z, x, y, m, N, M, X), num_words == N, pctx(h0, H.len() as int, powers@, one, rr, x_1), k0ok(h0[[m]][0], k0), n == 4, fr(h0, hd, z), t25 == n3, n3 == h0[[y]].len(), pok(hd, powers@, 16, N, X, M), fr2(hd, H, z, rr), H.len() == hd.len(), is_switch ==> tmpz == rr && tmpzz == z, !is_switch ==> tmpz == z && tmpzz == rr, mf(H, tmpz, N, ip(X, E), M), E == rv(h0[[y]], n3 - i3, i3 as int), E >= 0',
       pre='hd = H; E = 0;', le='lemma_p2_0(); lemma_win8(ye as int, yi as int, q); lemma_rv_push(h0[[y]], n3 - i3 - 1, i3 as int);'),
    4: dict(inv='mctx(h0, z, x, y, m, N, M, X), num_words == N, pctx(h0, H.len() as int, powers@, one, rr, x_1), k0ok(h0[[m]][0], k0), n == 4, fr(h0, hd, z), t25 == n3, n3 == h0[[y]].len(), i3 < n3, i_2 == n3 - 1 - i3, ye == h0[[y]][i_2 as int], t28 == 32, pok(hd, powers@, 16, N, X, M), fr2(hd, H, z, rr), H.len() == hd.len(), is_switch ==> tmpz == rr && tmpzz == z, !is_switch ==> tmpz == z && tmpzz == rr, mf(H, tmpz, N, ip(X, E), M), E0 == rv(h0[[y]], n3 - i3, i3 as int), E0 >= 0, n4 == 8, E == E0 * p2(4 * i4) + q, q >= 0, win(ye as int, yi as int, q, i4 as int)', ghost=['y0 = yi'],
       pre='E0 = E; q = 0; lemma_p2_0(); lemma_win0(ye as int); assert(E * 1 == E);',
       le='lemma_win(ye as int, y0, q, i4 as int); let nib = ((y0 as usize) >> 28) as int; lemma_p2_add(4, 4 * i4); lemma_p2_1(0); lemma_p2_1(1); lemma_p2_1(2); lemma_p2_1(3); lemma_p2_0(); let P = p2(4 * i4); assert(16 * (E0 * P + q) + nib == E0 * (16 * P) + (16 * q + nib)) by(nonlinear_arith); q = 16 * q + nib; E = 16 * E + nib; assert(4 * (i4 + 1) == 4 + 4 * i4);'),
    5: dict(inv='tmpz != tmpzz, tmpz < H.len(), tmpzz < he.len(), n5 == he[[tmpzz]].len(), t34 == tmpzz, fr(he, H, tmpz), H.len() == he.len(), H[[tmpz]] == he[[tmpzz]].take(i5 as int)', pre='he = H; assert(H[[tmpz]] =~= he[[tmpzz]].take(0));', le='assert(H[[tmpz]] =~= he[[tmpzz]].take(i5 + 1));', post='assert(H[[tmpz]] =~= he[[tmpzz]]);'),
  },
  at={'start': 'lemma_modd(h0[[m]]); if N == 0 { lemma_val0(h0[[m]]); }  lemma_p2_pw(N); lemma_p2_add(32 * N, 32 * N);',
    'fi:0': 'let nw = num_words; assert(nw << 6usize == 64 * nw) by(bit_vector) requires nw <= 0x1_0000_0000; hp = H;',
    'after nat_rem:0': 'lemma_mod_bound(X, M); lemma_lenle(H[[nat_rem_0]], h0[[m]]);', 'fi:1': 'assert(padz(hp[[x_1]], H[[x_1]])); lemma_padz(hp[[x_1]], H[[x_1]]); lemma_mod_twice(X, M);',
    'after nat_rem_assign:0': 'lemma_mod_bound(R * R, M); lemma_lenle(H[[rr]], h0[[m]]); hp = H;', 'fi:2': 'assert(padz(hp[[rr]], H[[rr]])); lemma_padz(hp[[rr]], H[[rr]]); assert(nv(H, rr) == (R * R) % M);',
    **_sq(3, 'tmpzz', 'tmpz'), **_sq(4, 'tmpz', 'tmpzz'), **_sq(5, 'tmpzz', 'tmpz'), **_sq(6, 'tmpz', 'tmpzz'),
    'after nat_from_u32:1': 'hq = H;', 'before montgomery:0': 'hp = H; assert(padz(hq[[one]], H[[one]])); lemma_padz(hq[[one]], H[[one]]); assert(nv(H, one) == 1); let rv_ = nv(H, rr); assert(1 * rv_ == rv_); lemma_mod_twice(R * R, M);',
    'after montgomery:0': 'lemma_mcancel(nv(H, powers@[0]), R, nv(hp, rr), N, M); assert(1 * R == R); assert(ip(X, 0) == 1); lemma_mfv(H[[powers@[0]]], N, 1, M); hp = H;',
    'after montgomery:1': 'lemma_ip1(X); lemma_mod_same(nv(hp, x_1), X, R * R, M); lemma_mulmod(nv(hp, x_1), R * R, M); assert(X * (R * R) == (X * R) * R) by(nonlinear_arith); lemma_mcancel(nv(H, powers@[1]), X * R, nv(hp, x_1) * nv(hp, rr), N, M); lemma_mfv(H[[powers@[1]]], N, X, M); hb = H;',
    'before montgomery:2': 'hp = H;', 'after montgomery:2': 'lemma_mf_mul(hp, H, powers@[i_1 as int], powers@[i_1 - 1], powers@[1], N, ip(X, i_1 - 1), ip(X, 1), M); lemma_ip_add(X, i_1 - 1, 1);',
    'fi:3': 'hp = H; lemma_win(ye as int, yi, q, i4 as int); if i3 == 0 && i4 == 0 { lemma_p2_0(); lemma_win0(ye as int); assert(q == 0); assert(E0 * 1 == 0); assert(E == 0); } assert(8 * E + 8 * E == 16 * E); assert(mf(H, tmpz, N, ip(X, 16 * E), M));',
    'after montgomery:7': 'let nib = ((yi as usize) >> 28) as int; lemma_mf_mul(hp, H, tmpzz, tmpz, t32, N, ip(X, 16 * E), ip(X, nib), M); lemma_ip_add(X, 16 * E, nib);',
    'before montgomery:8': 'hp = H;',
    'after montgomery:8': 'let V = nv(hp, tmpz); lemma_mfv(hp[[tmpz]], N, ip(X, E), M); assert(hp[[one]] == hb[[one]]); assert(nv(hp, one) == 1); assert(V * 1 == V); lemma_mcancel(nv(H, tmpzz), ip(X, E), V, N, M); lemma_mod_self_0(M); if nv(H, tmpzz) == M { lemma_eq_words(H[[tmpzz]], h0[[m]], N); assert(H[[tmpzz]] =~= h0[[m]]); } else { lemma_small_mod(nv(H, tmpzz) as nat, M as nat); } assert(E == nv(h0, y)); hm = H;',
    'before trim_head_zero:0': 'assert(H[[tmpzz]].len() > 0 && nv(H, tmpzz) == ip(X, nv(h0, y)) % M); assert(fr2(h0, H, z, rr));', 'after trim_head_zero:0': 'assert(!na(H, tmpzz) && cn(H, tmpzz) && nv(H, tmpzz) == ip(X, nv(h0, y)) % M); assert(fr2(h0, H, z, rr) && tmpz < H.len());',
  })
L('me', '''
/// equal modulo M; modulo 0 means equal
#[verifier::opaque] pub open spec fn me(a: int, b: int, M: int) -> bool { if M <= 0 { a == b } else { a % M == b % M } }
pub open spec fn ml(h: Hp, c: usize, a: int, M: int) -> bool { c < h.len() && canon(h[c as int]) && h[c as int].len() > 0 && me(nv(h, c), a, M) }
pub open spec fn mlok(h: Hp, p: Seq<usize>, k: int, X: int, M: int) -> bool { forall|j: int| 0 <= j < k ==> ml(h, #[trigger] p[j], ip(X, j), M) }
pub proof fn lemma_me_refl(a: int, M: int) ensures me(a, a, M) { reveal(me); }
pub proof fn lemma_me_mul(a: int, b: int, c: int, d: int, M: int) requires me(a, c, M), me(b, d, M) ensures me(a * b, c * d, M)
{ reveal(me); if M > 0 { lemma_mulmod(a, b, M); lemma_mulmod(c, d, M); } }
pub proof fn lemma_ml_mul(h1: Hp, h2: Hp, z: usize, x: usize, y: usize, a: int, b: int, M: int)
  requires z < h2.len(), canon(h2[z as int]), h2[z as int].len() > 0, nv(h2, z) == nv(h1, x) * nv(h1, y), ml(h1, x, a, M), ml(h1, y, b, M) ensures ml(h2, z, a * b, M)
{ lemma_me_mul(nv(h1, x), nv(h1, y), a, b, M); }
pub proof fn lemma_ml_rem(h1: Hp, h2: Hp, z: usize, x: usize, a: int, M: int)
  requires M > 0, z < h2.len(), canon(h2[z as int]), h2[z as int].len() > 0, nv(h2, z) == nv(h1, x) % M, ml(h1, x, a, M) ensures ml(h2, z, a, M), nv(h2, z) < M
{ reveal(me); lemma_mod_twice(nv(h1, x), M); lemma_mod_bound(nv(h1, x), M); }
pub proof fn lemma_ml_fin(h: Hp, z: usize, a: int, M: int) requires M > 0, ml(h, z, a, M), nv(h, z) < M ensures nv(h, z) == a % M
{ reveal(me); lemma_nv_nonneg(h, z); lemma_small_mod(nv(h, z) as nat, M as nat); }
pub open spec fn wctx(h: Hp, o: usize, x: usize, y: usize, m: usize, M: int, X: int) -> bool { o < h.len() && o != x && o != y && o != m && x < h.len() && y < h.len() && m < h.len() && M == nv(h, m) && M > 0 && canon(h[m as int]) && h[m as int].len() > 0 && X == nv(h, x) && h[x as int].len() > 0 && canon(h[x as int]) && h[y as int].len() >= 1 }
pub open spec fn wpow(n0: int, n: int, p: Seq<usize>) -> bool { p.len() == 16 && n0 <= p[0] && p[15] < n && forall|i: int, j: int| 0 <= i < j < 16 ==> p[i] < p[j] }
/// the two buffers a loop swaps are u and v
pub open spec fn swp(a: usize, b: usize, u: usize, v: usize) -> bool { u != v && ((a == u && b == v) || (a == v && b == u)) }
''')
def _ws(k): return {'before sqr_v:%d' % k: 'hp = H;', 'after sqr_v:%d' % k: 'lemma_ml_mul(hp, H, zz, z_1, z_1, ip(X, %d * E), ip(X, %d * E), M); lemma_ip_add(X, %d * E, %d * E);' % ((2 ** (k - 1),) * 4),
   'before nat_rem_assign:%d' % (k - 1): 'hp = H;', 'after nat_rem_assign:%d' % (k - 1): 'lemma_ml_rem(hp, H, z_1, z_1, ip(X, %d * E), M);' % 2 ** k} if False else {'before sqr_v:%d' % k: 'hp = H;', 'after sqr_v:%d' % k: 'lemma_ml_mul(hp, H, zz, z_1, z_1, ip(X, %d * E), ip(X, %d * E), M); lemma_ip_add(X, %d * E, %d * E);' % ((2 ** (k - 1),) * 4),
   'before nat_rem_assign:%d' % (k - 1): 'hp = H;', 'after nat_rem_assign:%d' % (k - 1): 'lemma_ml_rem(hp, H, z_1, z_1, ip(X, %d * E), M);' % (2 ** k)}
def _cp(dst, src, k): return dict(inv='%s != %s, %s < he.len(), %s < he.len(), n%d == he[[%s]].len(), fr(he, H, %s), H.len() == he.len(), H[[%s]] == he[[%s]].take(i%d as int)' % (dst, src, dst, src, k, src, dst, dst, src, k),
   pre='he = H; assert(H[[%s]] =~= he[[%s]].take(0));' % (dst, src), le='assert(H[[%s]] =~= he[[%s]].take(i%d + 1));' % (dst, src, k), post='assert(H[[%s]] =~= he[[%s]]);' % (dst, src))
_W = 'wctx(h0, o, x, y, m, M, X), n == 4, '
F(NAT + 'exp_windowed', 'exp_windowed', props='C09', iso=True, rlimit=200,
  req='ok(H, o), cn(H, x), !na(H, x), cn(H, y), !na(H, y), cn(H, m), nv(H, m) > 0, !na(H, m), o != x, o != y, o != m',
  ens='fr(O, H, o), cn(H, o), !na(H, o), nv(H, o) == ip(nv(O, x), nv(O, y)) % nv(O, m)',
  ghost=['M = nv(h@, m)', 'X = nv(h@, x)', 'mut hp: Hp = h@', 'mut hb: Hp = h@', 'mut hd: Hp = h@', 'mut he: Hp = h@', 'mut E: int = 0', 'mut E0: int = 0', 'mut q: int = 0'],
  loops={
    0: dict(inv=_W + 'n0 == 7, t1 == 14, ex(h0, H), H.len() >= hb.len(), wpow(h0.len() as int, H.len() as int, powers@), mlok(H, powers@, 2 + 2 * i0, X, M)',
       pre='hb = H; lemma_ip1(X); lemma_me_refl(1, M); lemma_me_refl(X, M);', ls='let ii = (2 + 2 * i0) as usize; assert(ii >> 1usize == ii / 2) by(bit_vector);', ghost=['p = powers@']),
    1: _cp('t9', 'r_v', 1), 2: _cp('t18', 'r_v_1', 2),
    3: dict(inv=_W + 'wpow(h0.len() as int, hd.len() as int, powers@), ex(h0, hd), swp(z_1, zz, z, buf), powers@[15] < z, powers@[15] < buf, z < hd.len(), buf < hd.len(), fr2(hd, H, z, buf), t23 == n3, ylen == n3, n3 == h0[[y]].len(), mlok(hd, powers@, 16, X, M), ml(H, z_1, ip(X, E), M), E == rv(h0[[y]], n3 - i3, i3 as int), E >= 0, i3 > 0 ==> nv(H, z_1) < M',
       pre='hd = H; E = 0; lemma_val1(H[[z]]); lemma_me_refl(1, M); assert(ip(X, 0) == 1);', le='lemma_p2_0(); lemma_win8(ele as int, yi as int, q); lemma_rv_push(h0[[y]], n3 - i3 - 1, i3 as int);'),
    4: dict(inv=_W + 'wpow(h0.len() as int, hd.len() as int, powers@), ex(h0, hd), swp(z_1, zz, z, buf), powers@[15] < z, powers@[15] < buf, z < hd.len(), buf < hd.len(), fr2(hd, H, z, buf), ylen == n3, i3 < n3, i_1 == n3 - 1 - i3, n3 == h0[[y]].len(), ele == h0[[y]][i_1 as int], t26 == 32, mlok(hd, powers@, 16, X, M), ml(H, z_1, ip(X, E), M), E0 == rv(h0[[y]], n3 - i3, i3 as int), E0 >= 0, n4 == 8, E == E0 * p2(4 * i4) + q, q >= 0, E >= 0, win(ele as int, yi as int, q, i4 as int), i4 > 0 ==> nv(H, z_1) < M', ghost=['y0 = yi'],
       pre='E0 = E; q = 0; lemma_p2_0(); lemma_win0(ele as int); assert(E * 1 == E);',
       le='lemma_win(ele as int, y0, q, i4 as int); let nib = ((y0 as usize) >> 28) as int; lemma_p2_add(4, 4 * i4); lemma_p2_1(0); lemma_p2_1(1); lemma_p2_1(2); lemma_p2_1(3); lemma_p2_0(); let P = p2(4 * i4); assert(16 * (E0 * P + q) + nib == E0 * (16 * P) + (16 * q + nib)) by(nonlinear_arith); q = 16 * q + nib; E = 16 * E + nib; assert(4 * (i4 + 1) == 4 + 4 * i4);'),
    5: _cp('o', 't42', 5),
  },
  at={**_ws(1), **_ws(2), **_ws(3), **_ws(4),
    'before sqr_v:0': 'hp = H;', 'after sqr_v:0': 'let k = 1 + i0 as int; lemma_ml_mul(hp, H, t4, t5, t5, ip(X, k), ip(X, k), M); lemma_ip_add(X, k, k);',
    'before nat_rem:0': 'hp = H;', 'after nat_rem:0': 'lemma_ml_rem(hp, H, nat_rem_0, t7, ip(X, 2 + 2 * i0), M);',
    'before mul_by_karatsuba:0': 'hp = H; lemma_me_refl(X, M); assert(ml(H, x, X, M)); assert(ml(H, t13, ip(X, 2 + 2 * i0), M));', 'after mul_by_karatsuba:0': 'let k = 2 + 2 * i0 as int; lemma_ml_mul(hp, H, t12, t13, x, ip(X, k), X, M); lemma_ip_add(X, k, 1); lemma_ip1(X);',
    'before nat_rem:1': 'hp = H;', 'after nat_rem:1': 'lemma_ml_rem(hp, H, nat_rem_1, t16, ip(X, 3 + 2 * i0), M);',
    'fi:0': 'hp = H; lemma_win(ele as int, yi, q, i4 as int); if i3 == 0 && i4 == 0 { lemma_p2_0(); lemma_win0(ele as int); assert(q == 0); assert(E0 * 1 == 0); assert(E == 0); } assert(8 * E + 8 * E == 16 * E); assert(ml(H, z_1, ip(X, 16 * E), M));',
    'after mul_by_karatsuba:1': 'let nib = ((yi as usize) >> 28) as int; lemma_ml_mul(hp, H, zz, z_1, t39, ip(X, 16 * E), ip(X, nib), M); lemma_ip_add(X, 16 * E, nib);',
    'before nat_rem_assign:4': 'hp = H;', 'after nat_rem_assign:4': 'let nib = ((yi as usize) >> 28) as int; lemma_ml_rem(hp, H, z_1, z_1, ip(X, 16 * E + nib), M);',
    'before trim_head_zero:0': 'assert(E == nv(h0, y)); lemma_ml_fin(H, z_1, ip(X, E), M);',
  })
L('bs', '''
/// scanning the bits of a from the top: q is what has been read, v holds the k remaining bits at the top
#[verifier::opaque] pub open spec fn bs(a: int, v: int, q: int, k: int) -> bool { 0 <= k <= 32 && 0 <= a - p2(k) * q < p2(k) && v == (a - p2(k) * q) * p2(32 - k) }
pub proof fn lemma_bs0(a: int) requires 0 <= a < 0x1_0000_0000 ensures bs(a, a, 0, 32) { reveal(bs); lemma_p2_0(); assert(p2(32) * 0 == 0); assert(a * 1 == a); }
pub proof fn lemma_bs_end(a: int, v: int, q: int) requires bs(a, v, q, 0) ensures q == a { reveal(bs); lemma_p2_0(); let p = p2(0); assert(p * q == q) by(nonlinear_arith) requires p == 1; }
/// the position after the leading bit
pub proof fn lemma_bs_top(a: u32, w: int, v: u32) requires 0 <= w <= 31, p2(w) <= a < p2(w + 1), v == (if w == 0 { 0u32 } else { a << ((32 - w) as u32) }) ensures bs(a as int, v as int, 1, w)
{ reveal(bs); lemma_p2_0(); lemma_p2_1(w); let P = p2(w); let r = a - P; assert(P * 1 == P); lemma_p2_pos(w); if w == 0 { assert(r == 0); assert(0 * p2(32) == 0); } else { let s = 32 - w; lemma_shl32(a, s as u32); lemma_p2_add(w, s); let S = p2(s); lemma_p2_pos(s); assert(a * S == 0x1_0000_0000 + r * S) by(nonlinear_arith) requires r == a - P, P * S == 0x1_0000_0000;
  assert(0 <= r * S < 0x1_0000_0000) by(nonlinear_arith) requires 0 <= r < P, P * S == 0x1_0000_0000, S >= 1; lemma_fundamental_div_mod_converse(a * S, 0x1_0000_0000, 1, r * S); } }
pub proof fn lemma_bs_step(a: int, v: u32, q: int, k: int) requires k >= 1, bs(a, v as int, q, k) ensures bs(a, (v << 1u32) as int, 2 * q + (if v & 0x8000_0000 != 0 { 1int } else { 0 }), k - 1)
{ reveal(bs); assert((v & 0x8000_0000 != 0) == (v >= 0x8000_0000)) by(bit_vector); assert((v << 1u32) == (v & 0x7fff_ffff) * 2) by(bit_vector); assert((v & 0x7fff_ffff) == (if v >= 0x8000_0000 { (v - 0x8000_0000) as u32 } else { v })) by(bit_vector);
  let P = p2(k - 1); let S = p2(32 - k); lemma_p2_1(k - 1); lemma_p2_1(32 - k); lemma_p2_add(k - 1, 33 - k); lemma_p2_0(); lemma_p2_pos(k - 1); lemma_p2_pos(32 - k); let r = a - p2(k) * q; let b = if v & 0x8000_0000 != 0 { 1int } else { 0 }; let r2 = r - P * b;
  assert(P * (2 * S) == 0x1_0000_0000); assert(P * S == 0x8000_0000) by(nonlinear_arith) requires P * (2 * S) == 0x1_0000_0000;
  assert((v << 1u32) == 2 * (v - 0x8000_0000 * b)); assert(r2 * S == v - 0x8000_0000 * b) by(nonlinear_arith) requires r * S == v, r2 == r - P * b, P * S == 0x8000_0000;
  assert(0 <= r2 < P) by(nonlinear_arith) requires 0 <= r2 * S < 0x8000_0000, P * S == 0x8000_0000, S >= 1, P >= 1;
  assert(a - P * (2 * q + b) == r2) by(nonlinear_arith) requires r == a - (2 * P) * q, r2 == r - P * b; assert(r2 * (2 * S) == 2 * (r2 * S)) by(nonlinear_arith); assert(33 - k == 32 - (k - 1)); }
pub proof fn lemma_iszero(s: Seq<u32>) requires canon(s), s.len() > 0 ensures val(s) == 0 <==> (s.len() == 1 && s[0] == 0), val(s) == 1 <==> (s.len() == 1 && s[0] == 1), val(s) >= 0
{ lemma_rv_bound(s, 0, s.len() as int); if s.len() == 1 { lemma_val1(s); } else { lemma_top(s); lemma_pw_mono(1, s.len() - 1); assert(pw(1) == 0x1_0000_0000 * pw(0)); } }
''')
_E = 'cn(h0, slf), cn(h0, b), cn(h0, n), !na(h0, slf), !na(h0, b), !na(h0, n), A == nv(h0, slf), M == nv(h0, n), M >= 0, ex(h0, hd), z >= h0.len(), zz >= h0.len(), swp(z_1, zz_1, z, zz), z < hd.len(), zz < hd.len(), fr2(hd, H, z, zz), mask == 0x8000_0000, '
F(NAT + 'exp', 'nat_exp', props='C09 C06 C07 C08', iso=True,
  req='cn(H, slf), cn(H, b), cn(H, n)',
  ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == (na(O, slf) || na(O, b) || na(O, n)), !na(H, r) ==> nv(H, r) == (if nv(O, n) == 0 { ip(nv(O, slf), nv(O, b)) } else { ip(nv(O, slf), nv(O, b)) % nv(O, n) })',
  ghost=['M = nv(h@, n)', 'A = nv(h@, slf)', 'B = nv(h@, b)', 'mut hp: Hp = h@', 'mut hd: Hp = h@', 'mut he: Hp = h@', 'mut E: int = 0', 'mut E0: int = 0', 'mut q: int = 0'],
  loops={0: _cp('z', 'slf', 0), 2: _cp('z_1', 'r_v', 2), 5: _cp('z_1', 'r_v_1', 5),
    1: dict(inv=_E + 'n1 == w, E0 == E, w <= 31, bs(h0[[b]][h0[[b]].len() - 1] as int, v as int, E, w - i1), E >= 0, ml(H, z_1, ip(A, E), M), M > 0 && i1 > 0 ==> nv(H, z_1) < M', ghost=['v0 = v'], ls='lemma_iszero(h0[[n]]);', le='lemma_bs_step(h0[[b]][h0[[b]].len() - 1] as int, v0, E0, w - i1); E0 = E;',
       pre='hd = H; E = 1; E0 = 1; lemma_ip1(A); lemma_me_refl(A, M); let a = h0[[b]][h0[[b]].len() - 1]; lemma_bs_top(a, w as int, v);', post='lemma_bs_end(h0[[b]][h0[[b]].len() - 1] as int, v as int, E);'),
    3: dict(inv=_E + 'n3 == h0[[b]].len() - 1, t54 == n3 + 1, E == rv(h0[[b]], n3 - i3, i3 + 1), E >= 0, ml(H, z_1, ip(A, E), M), M > 0 && (B > 1) && (w > 0 || i3 > 0) ==> nv(H, z_1) < M',
       pre='lemma_step(h0[[b]], n3 as int, 0); lemma_rv_push(h0[[b]], n3 as int, 0); assert(rv(h0[[b]], n3 + 1, 0) == 0);', le='lemma_bs_end(be as int, v_1 as int, q); lemma_p2_0(); lemma_rv_push(h0[[b]], n3 - i3 - 1, i3 + 1);'),
    4: dict(inv=_E + 'n4 == 32, be == h0[[b]][n3 - 1 - i3], n3 == h0[[b]].len() - 1, i3 < n3, E0 == rv(h0[[b]], n3 - i3, i3 + 1), E0 >= 0, q >= 0, E >= 0, E == E0 * p2(i4 as int) + q, bs(be as int, v_1 as int, q, 32 - i4), ml(H, z_1, ip(A, E), M), M > 0 && i4 > 0 ==> nv(H, z_1) < M', ghost=['v0 = v_1'], ls='lemma_iszero(h0[[n]]);',
       pre='E0 = E; q = 0; lemma_bs0(be as int); lemma_p2_0(); assert(E * 1 == E);',
       le='let bt = if v0 & 0x8000_0000 != 0 { 1int } else { 0 }; lemma_bs_step(be as int, v0, q, 32 - i4); lemma_p2_1(i4 as int); let P = p2(i4 as int); assert(2 * (E0 * P + q) + bt == E0 * (2 * P) + (2 * q + bt)) by(nonlinear_arith); q = 2 * q + bt;'),
  },
  at={'start': 'if !na(h0, slf) { lemma_iszero(h0[[slf]]); } if !na(h0, b) { lemma_iszero(h0[[b]]); } if !na(h0, n) { lemma_iszero(h0[[n]]); } lemma_ip1(A); lemma_p2_0(); assert(ip(A, 1) == A); assert(ip(A, 0) == 1); if M > 1 { lemma_small_mod(1, M as nat); } assert(forall|x: u32| #[trigger] (x & 1u32) == x % 2) by(bit_vector);',
    'before sqr_v:0': 'hp = H;', 'after sqr_v:0': 'lemma_ml_mul(hp, H, zz_1, z_1, z_1, ip(A, E), ip(A, E), M); lemma_ip_add(A, E, E); E = 2 * E;',
    'before sqr_v:1': 'hp = H;', 'after sqr_v:1': 'lemma_ml_mul(hp, H, zz_1, z_1, z_1, ip(A, E), ip(A, E), M); lemma_ip_add(A, E, E); E = 2 * E;',
    'before mul_by_karatsuba:0': 'hp = H; lemma_me_refl(A, M); assert(ml(H, slf, A, M));', 'after mul_by_karatsuba:0': 'lemma_ml_mul(hp, H, zz_1, z_1, slf, ip(A, E), A, M); lemma_ip_add(A, E, 1); lemma_ip1(A); E = E + 1;',
    'before mul_by_karatsuba:1': 'hp = H; lemma_me_refl(A, M); assert(ml(H, slf, A, M));', 'after mul_by_karatsuba:1': 'lemma_ml_mul(hp, H, zz_1, z_1, slf, ip(A, E), A, M); lemma_ip_add(A, E, 1); lemma_ip1(A); E = E + 1;',
    'before nat_rem:1': 'hp = H; lemma_iszero(H[[n]]);', 'after nat_rem:1': 'lemma_ml_rem(hp, H, nat_rem_1, z_1, ip(A, E), M);',
    'before nat_rem:2': 'hp = H; lemma_iszero(H[[n]]);', 'after nat_rem:2': 'lemma_ml_rem(hp, H, nat_rem_2, z_1, ip(A, E), M);',
    'before trim_head_zero:0': 'assert(E == B); reveal(me); if M > 0 { lemma_ml_fin(H, z_1, ip(A, E), M); }',
  })
L('lemma_ip_neg', '''
pub proof fn lemma_ip_neg(a: int, n: int) requires n >= 0 ensures ip(-a, n) == (if n % 2 == 0 { ip(a, n) } else { -ip(a, n) }) decreases n
{ if n > 0 { lemma_ip_neg(a, n - 1); let p = ip(a, n - 1); assert((-a) * p == -(a * p)) by(nonlinear_arith); assert((-a) * (-p) == a * p) by(nonlinear_arith); } }
pub proof fn lemma_neg_mod(x: int, N: int) requires N > 0 ensures (-x) % N == (if x % N == 0 { 0 } else { N - x % N })
{ lemma_fundamental_div_mod(x, N); lemma_mod_bound(x, N); let q = x / N; let r = x % N; if r == 0 { assert(-x == N * (-q)) by(nonlinear_arith) requires x == N * q; lemma_fundamental_div_mod_converse(-x, N, -q, 0); } else { assert(-x == N * (-q - 1) + (N - r)) by(nonlinear_arith) requires x == N * q + r; lemma_fundamental_div_mod_converse(-x, N, -q - 1, N - r); } }
/// r is the e-th power modulo N of the inverse of a
pub open spec fn ispi(a: int, e: int, N: int, r: int, x: int) -> bool { 0 <= x < N && dvd(N, a * x - 1) && r == ip(x, e) % N }
pub open spec fn powinv(a: int, e: int, N: int, r: int) -> bool { exists|x: int| #[trigger] ispi(a, e, N, r, x) }
''')
F(BI + 'exp', 'bi_exp', props='C09 C06 C07 C08', req='cb(H, slf), cb(H, b), cb(H, n)',
  ens='''ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == (nb(O, slf) || nb(O, b) || nb(O, n)),
   !nb(H, r) && bv(O, b) >= 0 && bv(O, n) == 0 ==> bv(H, r) == ip(bv(O, slf), bv(O, b)),
   !nb(H, r) && bv(O, b) >= 0 && bv(O, n) != 0 ==> bv(H, r) == ip(bv(O, slf), bv(O, b)) % ab(bv(O, n)),
   !nb(H, r) && bv(O, b) < 0 && bv(O, n) == 0 ==> bv(H, r) == 1,
   !nb(H, r) && bv(O, b) < 0 && bv(O, n) != 0 && isgcd(1, bv(O, slf), bv(O, n)) ==> powinv(bv(O, slf), -bv(O, b), ab(bv(O, n)), bv(H, r))''',
  ghost=['A = bv(h@, slf)', 'B = bv(h@, b)', 'M = ab(bv(h@, n))', 'mut he: Hp = h@'],
  at={'start': 'assert(forall|x: u32| #[trigger] (x & 1u32) == x % 2) by(bit_vector); if !nb(h0, n) { lemma_iszero(h0[[n.nat]]); } if !nb(h0, b) { lemma_iszero(h0[[b.nat]]); lemma_modd(h0[[b.nat]]); lemma_ip_neg(nv(h0, slf.nat), ab(B)); } if M > 0 { lemma_neg_mod(ip(nv(h0, slf.nat), ab(B)), M); lemma_mod_bound(ip(nv(h0, slf.nat), ab(B)), M); }',
    'after nat_exp:0': 'he = H; lemma_iszero(H[[nat_exp_0]]); if B < 0 && isgcd(1, A, bv(h0, n)) { assert(ispi(A, -B, M, nv(H, nat_exp_0), nv(H, xwords))); }',
  })
