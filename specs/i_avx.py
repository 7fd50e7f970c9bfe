# ---- multiplication: one word, AVX2 schoolbook, the operators
F(NAT + 'mul_inner_basic', 'mul_inner_basic', props='C02 C06', req='ok(H, slf), canon(H[[slf]]), H[[slf]].len() > 0',
  ens='fr(O, H, slf), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) * rhs',
  loops={0: dict(inv='''fr(h0, H, slf), H[[slf]].len() == n0, h0[[slf]].len() == n0, pre <= 0xffff_ffff, rhs_1 == rhs, forall|j: int| i0 <= j < n0 ==> H[[slf]][j] == h0[[slf]][j],
      rv(H[[slf]], 0, i0 as int) + pre * pw(i0 as int) == rv(h0[[slf]], 0, i0 as int) * rhs''',
    pre='lemma_mul_basics(rhs as int); lemma_mul_basics(pw(0));',
    ghost=['gp = pre'],
    ls='lemma_step(h0[[slf]], 0, i0 as int); lemma_mulword(h0[[slf]][i0 as int], rhs); lemma_lohi_all();',
    le='''lemma_step(H[[slf]], 0, i0 as int); lemma_rv_eq(H[[slf]], 0, hl0[[slf]], 0, i0 as int);
      lemma_mulrow1(rv(h0[[slf]], 0, i0 as int), rv(hl0[[slf]], 0, i0 as int), gp as int, H[[slf]][i0 as int] as int, pre as int, h0[[slf]][i0 as int] as int, rhs as int, pw(i0 as int));''',
    post='')},
  at={'before trim_head_zero:0': 'lemma_step(H[[slf]], 0, n0 as int); lemma_rv_eq(H[[slf]], 0, ha0[[slf]], 0, n0 as int);'})
L('lemma_lohi_all', '''
pub proof fn lemma_lohi_all() ensures forall|z: u64| #[trigger] (z >> 32) == z as int / 0x1_0000_0000, forall|z: u64| #[trigger] (z & 0xffff_ffff) == z as int % 0x1_0000_0000
{ assert forall|z: u64| #[trigger] (z >> 32) == z as int / 0x1_0000_0000 by { lemma_lohi(z); } assert forall|z: u64| #[trigger] (z & 0xffff_ffff) == z as int % 0x1_0000_0000 by { lemma_lohi(z); } }
''')
L('lemma_mulrow1', '''
pub proof fn lemma_mulrow1(v: int, u: int, p: int, w: int, q: int, a: int, d: int, b: int) requires u + p * b == v * d, w + q * 0x1_0000_0000 == a * d + p
  ensures u + w * b + q * (0x1_0000_0000 * b) == (v + a * b) * d
{ lemma_carry(w, q, a * d + p, b); lemma_dist2(a * d, p, b); lemma_dist2(v, a * b, d); assert(a * d * b == a * b * d) by(nonlinear_arith); }
''')
L('lanes', '''
/// the low halves of the four lanes hold the words j..j+4 of s, zero beyond its end
pub open spec fn lanes(m: M256, s: Seq<u32>, j: int) -> bool { lo32(m.a) == wd(s, j) && lo32(m.b) == wd(s, j + 1) && lo32(m.c) == wd(s, j + 2) && lo32(m.d) == wd(s, j + 3) }
pub open spec fn bcast(m: M256, w: u32) -> bool { lo32(m.a) == w && lo32(m.b) == w && lo32(m.c) == w && lo32(m.d) == w }
''')
L('rowok', '''
/// row i of the product matrix: d times the words of s, shifted by i, q of them stored so far
#[verifier::opaque]
pub open spec fn rowok(r: Seq<u64>, n: int, i: int, d: u32, s: Seq<u32>, q: int) -> bool { r.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] r[j] as int == (if i <= j < i + q { d * wd(s, j - i) } else { 0 }) }
''')
L('lemma_row0', '''
pub proof fn lemma_row0(r: Seq<u64>, n: int, i: int, d: u32, s: Seq<u32>) requires r.len() == n, forall|j: int| 0 <= j < n ==> r[j] == 0 ensures rowok(r, n, i, d, s, 0) { reveal(rowok); }
''')
L('lemma_rowlen', '''
pub proof fn lemma_rowlen(r: Seq<u64>, n: int, i: int, d: u32, s: Seq<u32>, q: int) requires rowok(r, n, i, d, s, q) ensures r.len() == n { reveal(rowok); }
''')
L('lemma_rowstore', '''
pub proof fn lemma_rowstore(r: Seq<u64>, t: Seq<u64>, n: int, i: int, d: u32, s: Seq<u32>, q: int, l: M256, m: M256, x: M256)
  requires rowok(r, n, i, d, s, q), t.len() == n, 0 <= i, 0 <= q, i + q + 4 <= n, bcast(l, d), lanes(m, s, q), x.a == lo32(l.a) * lo32(m.a), x.b == lo32(l.b) * lo32(m.b), x.c == lo32(l.c) * lo32(m.c), x.d == lo32(l.d) * lo32(m.d),
    forall|k: int| 0 <= k < n ==> #[trigger] t[k] == (if k == i + q { x.a } else if k == i + q + 1 { x.b } else if k == i + q + 2 { x.c } else if k == i + q + 3 { x.d } else { r[k] })
  ensures rowok(t, n, i, d, s, q + 4)
{ reveal(rowok); }
''')
L('colv', '''
pub open spec fn rowv(r: Seq<u64>, n: int) -> int decreases n { if n <= 0 { 0 } else { rowv(r, n - 1) + r[n - 1] * pw(n - 1) } }
pub open spec fn cols(r: Seq<Vec<u64>>, j: int, k: int) -> int decreases k { if k <= 0 { 0 } else { cols(r, j, k - 1) + r[k - 1]@[j] } }
pub open spec fn colv(r: Seq<Vec<u64>>, n: int, k: int) -> int decreases n { if n <= 0 { 0 } else { colv(r, n - 1, k) + cols(r, n - 1, k) * pw(n - 1) } }
pub proof fn lemma_colv0(r: Seq<Vec<u64>>, n: int) ensures colv(r, n, 0) == 0 decreases n { if n > 0 { lemma_colv0(r, n - 1); lemma_mul_basics(pw(n - 1)); } }
pub proof fn lemma_colv(r: Seq<Vec<u64>>, n: int, k: int) requires k >= 0 ensures colv(r, n, k + 1) == colv(r, n, k) + rowv(r[k]@, n) decreases n
{ if n > 0 { lemma_colv(r, n - 1, k); lemma_dist2(cols(r, n - 1, k), r[k]@[n - 1] as int, pw(n - 1)); } }
pub proof fn lemma_row(r: Seq<u64>, n: int, i: int, d: u32, s: Seq<u32>, q: int, p: Seq<u32>, t: int)
  requires rowok(r, n, i, d, s, q), p.len() == q, forall|k: int| 0 <= k < q ==> #[trigger] p[k] == wd(s, k), 0 <= i, 0 <= t <= n
  ensures rowv(r, t) == (if t <= i { 0 } else if t <= i + q { d * pw(i) * rv(p, 0, t - i) } else { d * pw(i) * rv(p, 0, q) })
  decreases t
{ reveal(rowok); if t > 0 { lemma_row(r, n, i, d, s, q, p, t - 1);
    if t - 1 < i { lemma_mul_basics(pw(t - 1)); if t == i { } }
    else if t - 1 < i + q { let w = t - 1 - i; lemma_step(p, 0, w); lemma_pw_add(i, w); assert(r[t - 1] as int == d * p[w]); assert(d * p[w] * (pw(i) * pw(w)) == d * pw(i) * (p[w] * pw(w))) by(nonlinear_arith); lemma_mul_is_distributive_add(d * pw(i), rv(p, 0, w), p[w] * pw(w)); if w == 0 { assert(d * pw(i) * 0 == 0); } }
    else { lemma_mul_basics(pw(t - 1)); if q == 0 { lemma_mul_basics(d * pw(i)); } } } else { } }
pub proof fn lemma_matrix(r: Seq<Vec<u64>>, n: int, u: Seq<u32>, s: Seq<u32>, q: int, p: Seq<u32>, k: int)
  requires 0 <= k <= u.len(), r.len() >= k, forall|i: int| 0 <= i < k ==> rowok(#[trigger] r[i]@, n, i, u[i], s, q), p.len() == q, forall|j: int| 0 <= j < q ==> #[trigger] p[j] == wd(s, j), u.len() + q <= n + 1, q >= s.len()
  ensures colv(r, n, k) == rv(u, 0, k) * val(s) decreases k
{ if k == 0 { lemma_colv0(r, n); lemma_mul_basics(val(s)); } else {
    lemma_matrix(r, n, u, s, q, p, k - 1); lemma_colv(r, n, k - 1); lemma_row(r[k - 1]@, n, k - 1, u[k - 1], s, q, p, n); lemma_step(u, 0, k - 1);
    lemma_rv_top0(p, 0, s.len() as int, q); lemma_rv_eq(p, 0, s, 0, s.len() as int); lemma_dist2(rv(u, 0, k - 1), u[k - 1] * pw(k - 1), val(s));
    if n <= k - 1 { lemma_mul_basics(u[k - 1] * pw(k - 1)); } } }
pub proof fn lemma_cols(r: Seq<Vec<u64>>, n: int, u: Seq<u32>, s: Seq<u32>, q: int, j: int, k: int)
  requires 0 <= k <= u.len(), r.len() >= k, forall|i: int| 0 <= i < k ==> rowok(#[trigger] r[i]@, n, i, u[i], s, q), 0 <= j < n
  ensures 0 <= cols(r, j, k) <= k * 0xffff_fffe_0000_0001 decreases k
{ reveal(rowok); if k > 0 { lemma_cols(r, n, u, s, q, j, k - 1); assert(rowok(r[k - 1]@, n, k - 1, u[k - 1], s, q)); lemma_mulword(u[k - 1], wd(s, j - (k - 1))); assert(r[k - 1]@[j] as int == r[k - 1]@[j]); } }
''')
L('lemma_and3', '''
pub proof fn lemma_and3(n: usize) ensures n <= 0x1_0000_0000 ==> (n & !3) as int == n - n % 4, n <= 0x1_0000_0010 ==> ((n >> 2) << 2) as int == n - n % 4
{ let m = n as u64; assert(m <= 0x1_0000_0000 ==> m & !3 == m - m % 4) by(bit_vector); assert(m <= 0x1_0000_0010 ==> ((m >> 2) << 2) == m - m % 4) by(bit_vector); }
''')
L('lemma_or32', '''
pub proof fn lemma_or32(a: u64, c: u64) requires c <= 0xffff_ffff ensures ((a >> 32) | (c << 32)) as int == a as int / 0x1_0000_0000 + c * 0x1_0000_0000, (c << 32) == c * 0x1_0000_0000
{ assert(((a >> 32) | (c << 32)) == (a >> 32) + c * 0x1_0000_0000) by(bit_vector) requires c <= 0xffff_ffff; assert(a >> 32 == a / 0x1_0000_0000) by(bit_vector); assert((c << 32) == c * 0x1_0000_0000) by(bit_vector) requires c <= 0xffff_ffff; }
''')
F(NAT.replace('nat::Nat', 'nat_avx2::<impl bigint::nat::Nat>') + 'mul_manuual_by_avx2', 'mul_manuual_by_avx2', props='C02 C06', req='cn(H, slf), cn(H, rhs), !na(H, slf), !na(H, rhs)',
  ens='fr(O, H, slf), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) * nv(O, rhs)',
  ghost=['mut us: Seq<u32> = Seq::empty()', 'mut ms: Seq<u32> = Seq::empty()', 'mut rr: Seq<Vec<u64>> = Seq::empty()', 'mut q: int = 0'],
  loops={
    0: dict(pre='us = H[[min_1.c]]; ms = H[[max_1.c]]; q = (ms.len() + 3) as int / 4; lemma_and3((ms.len() + 3) as usize);', inv='ex(h0, H), us == H[[min_1.c]], minp_1.c == min_1.c, ok(H, minp_1.c), minp_1.o == 0, n0 == us.len(), n0 <= MAXV, lpkg.len() == i0, forall|k: int| 0 <= k < i0 ==> bcast(#[trigger] lpkg@[k], us[k])'),
    1: dict(pre='lemma_and3((max_1.hi - max_1.lo) as usize);', inv='ex(h0, H), ms == H[[max_1.c]], maxp_1.c == max_1.c, ok(H, maxp_1.c), maxp_1.o == 0, n1 * 4 == len, len <= ms.len() <= MAXV, len >= 0, rpkg.len() == i1, forall|k: int| 0 <= k < i1 ==> lanes(#[trigger] rpkg@[k], ms, 4 * k)'),
    2: dict(pre='assert(v_len == us.len() + 4 * q - 1);', inv='us.len() >= 1, lpkg.len() == us.len(), n2 == us.len(), forall|k: int| 0 <= k < us.len() ==> bcast(#[trigger] lpkg@[k], us[k]), rpkg.len() == q, forall|k: int| 0 <= k < q ==> lanes(#[trigger] rpkg@[k], ms, 4 * k), v_len == us.len() + 4 * q - 1, us.len() <= MAXV, 0 <= q <= MAXV, mtop(mask.a), mtop(mask.b), mtop(mask.c), mtop(mask.d), r_v.len() == i2, forall|k: int| 0 <= k < i2 ==> rowok(#[trigger] r_v@[k]@, v_len as int, k, us[k], ms, 4 * q)', 
       le=''),
    3: dict(inv='us.len() >= 1, i2 < us.len(), rpkg.len() == q, n3 == q, forall|k: int| 0 <= k < q ==> lanes(#[trigger] rpkg@[k], ms, 4 * k), bcast(l, us[i2 as int]), v_len == us.len() + 4 * q - 1, us.len() <= MAXV, 0 <= q <= MAXV, mtop(mask.a), mtop(mask.b), mtop(mask.c), mtop(mask.d), tmp0_ptr == i2 + 4 * i3, rowok(tmp0@, v_len as int, i2 as int, us[i2 as int], ms, 4 * i3)',
       pre='lemma_row0(tmp0@, v_len as int, i2 as int, us[i2 as int], ms);', ghost=['gt = tmp0@'],
       le='lemma_rowstore(gt, tmp0@, v_len as int, i2 as int, us[i2 as int], ms, 4 * i3, l, rpkg@[i3 as int], tmp1);',
       ls='assert(rowok(tmp0@, v_len as int, i2 as int, us[i2 as int], ms, 4 * i3)); lemma_rowlen(tmp0@, v_len as int, i2 as int, us[i2 as int], ms, 4 * i3); assert(lanes(rpkg@[i3 as int], ms, 4 * i3));'),
    4: dict(pre='rr = r_v@; lemma_mul_basics(pw(0));', inv='fr(h0, H, slf), n4 == v_len, v_len == us.len() + 4 * q - 1, us.len() <= MAXV, ok(H, slf), H[[slf]].len() == i4, r_v@ == rr, r_v.len() == us.len(), forall|k: int| 0 <= k < us.len() ==> rowok(#[trigger] rr[k]@, v_len as int, k, us[k], ms, 4 * q), rv(H[[slf]], 0, i4 as int) + pre * pw(i4 as int) == colv(rr, i4 as int, us.len() as int)',
       ghost=['gp = pre'],
       le='''lemma_step(H[[slf]], 0, i4 as int); lemma_rv_eq(H[[slf]], 0, hl4[[slf]], 0, i4 as int); lemma_mulrow1(colv(rr, i4 as int, us.len() as int), rv(hl4[[slf]], 0, i4 as int), gp as int, H[[slf]][i4 as int] as int, pre as int, cols(rr, i4 as int, us.len() as int), 1, pw(i4 as int));'''),
    5: dict(ls='assert(rowok(rr[i5 as int]@, v_len as int, i5 as int, us[i5 as int], ms, 4 * q)); lemma_rowlen(rr[i5 as int]@, v_len as int, i5 as int, us[i5 as int], ms, 4 * q);', inv='us.len() <= MAXV, i4 < v_len, n5 == us.len(), r_v.len() == us.len(), r_v@ == rr, i_3 == i4, forall|k: int| 0 <= k < us.len() ==> rowok(#[trigger] rr[k]@, v_len as int, k, us[k], ms, 4 * q), c <= i5, out + c * 0x1_0000_0000_0000_0000 == gp + cols(rr, i4 as int, i5 as int)',
       post='lemma_cols(rr, v_len as int, us, ms, 4 * q, i4 as int, us.len() as int); lemma_mul_inequality(us.len() as int, 0x1_0000_0000, 0xffff_fffe_0000_0001); lemma_or32(out, c); lemma_lohi(out);'),
  },
  at={'before trim_head_zero:0': '''lemma_avxfin(ha4[[slf]], pre, rr, v_len as int, us, ms, q, ha4.len() as int); lemma_step(H[[slf]], 0, v_len as int); lemma_rv_eq(H[[slf]], 0, ha4[[slf]], 0, v_len as int); lemma_lohi(pre); if pre == 0 { lemma_mul_basics(pw(v_len as int)); }'''})
L('lemma_avxfin', '''
pub proof fn lemma_avxfin(w: Seq<u32>, pre: u64, rr: Seq<Vec<u64>>, n: int, us: Seq<u32>, ms: Seq<u32>, q: int, z: int)
  requires us.len() >= 1, n == us.len() + 4 * q - 1, q >= 0, 4 * q >= ms.len(), rr.len() == us.len(), forall|k: int| 0 <= k < us.len() ==> rowok(#[trigger] rr[k]@, n, k, us[k], ms, 4 * q), rv(w, 0, n) + pre * pw(n) == colv(rr, n, us.len() as int)
  ensures pre < 0x1_0000_0000, rv(w, 0, n) + pre * pw(n) == val(ms) * val(us), val(ms) * val(us) == val(us) * val(ms)
{
  let p = Seq::new((4 * q) as nat, |j: int| wd(ms, j)); lemma_matrix(rr, n, us, ms, 4 * q, p, us.len() as int);
  let m = us.len() as int; lemma_rv_bound(us, 0, m); lemma_rv_bound(ms, 0, ms.len() as int); lemma_prodlt(val(us), val(ms), m, ms.len() as int); lemma_pw_mono(m + ms.len(), n + 1); lemma_rv_bound(w, 0, n); lemma_pw_pos(n);
  let P = pw(n); assert(pw(n + 1) == 0x1_0000_0000 * P); assert(val(us) * val(ms) < P * 0x1_0000_0000); assert(pre < 0x1_0000_0000) by(nonlinear_arith) requires pre * P <= val(us) * val(ms), val(us) * val(ms) < P * 0x1_0000_0000, P >= 1;
  lemma_mul_is_commutative(val(us), val(ms));
}
''')
F(NAT.replace('nat::Nat', 'nat_avx2::<impl bigint::nat::Nat>') + 'mul_inner', 'mul_inner', props='C02 C06', req='cn(H, slf), cn(H, max), !na(H, slf), !na(H, max)',
  ens='fr(O, H, slf), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) * nv(O, max)',
  at={'start': 'lemma_mul_basics(nv(O, slf)); lemma_mul_basics(nv(O, max)); lemma_pw_pos(0);', 'ret': 'let s = H[[slf]]; let t = O[[max]]; if s.len() == t.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[0 + k] == t[0 + k]) { lemma_rv_eq(s, 0, t, 0, s.len() as int); } if s.len() == 1 { lemma_val1(s); }'})
natop('Mul', 'mul', '', 'nv(H, X) == A * B', 'C02', 'mul')
natop('Mul', 'mul', 'u32', 'nv(H, X) == A * B', 'C02', 'mul')
biop('Mul', 'mul', 'mul_inner', 'bv(H, X) == A * B', 'C02', extra=dict(at={'ret': NN + ' let a = nv(O, old(slf).nat); let b = nv(O, rhs.nat); lemma_negmul(a, b);'}))
L('lemma_negmul', '''
pub proof fn lemma_negmul(a: int, b: int) requires a >= 0, b >= 0 ensures (-a) * b == -(a * b), a * (-b) == -(a * b), (-a) * (-b) == a * b, a * b >= 0, a != 0 && b != 0 ==> a * b > 0, a * 0 == 0, 0 * b == 0
{ assert((-a) * b == -(a * b) && a * (-b) == -(a * b) && (-a) * (-b) == a * b && a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; if a != 0 && b != 0 { assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; } }
''')
