L('lemma_shl_step', '''
/// one word of a left shift by 0 < s < 32 bits
pub proof fn lemma_shl_step(a: u32, t: u32, s: u32) requires 0 < s < 32, t < p2(s as int)
  ensures ((a << s) | t) + (a >> ((32 - s) as u32)) * 0x1_0000_0000 == a * p2(s as int) + t, a >> ((32 - s) as u32) < p2(s as int)
{
  lemma_shl32(a, s); lemma_shl32(1, s); lemma_p2_0(); lemma_p2_lt(s as int, 32); lemma_p2_pos(s as int); assert(p2(s as int) == 1u32 << s) by { lemma_small_mod(p2(s as int) as nat, 0x1_0000_0000); }
  let a6 = a as u64; let t6 = t as u64; let s6 = s as u64; let c = (32 - s) as u32;
  assert(((a << s) | t) as u64 + ((a >> c) as u64) * 0x1_0000_0000 == ((a as u64) << (s as u64)) + (t as u64) && (a >> c) < (1u32 << s)) by(bit_vector) requires 0 < s < 32, t < (1u32 << s), c == (32 - s) as u32;
}''')
L('lemma_zeros_cat', '''
pub proof fn lemma_zeros_cat(z: Seq<u32>, s: Seq<u32>) requires forall|k: int| 0 <= k < z.len() ==> z[k] == 0 ensures val(z + s) == pw(z.len() as int) * val(s)
{
  let t = z + s; lemma_rv_split(t, 0, z.len() as int, s.len() as int); lemma_rv_zero(t, 0, z.len() as int); lemma_rv_eq(t, z.len() as int, s, 0, s.len() as int);
}''')
F(NAT + 'shl_inner', 'shl_inner', props='C04 C06',
  req='cn(H, slf), !na(H, slf)', ens='fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) * p2(rhs as int)',
  at={'start': 'lemma_sh5(rhs); lemma_p2_split(rhs as int); lemma_p2_0(); assert(nv(h0, slf) * 1 == nv(h0, slf));',
      'fi:0': ('hm = h@', '''let l = h0[[slf]].len() as int; if nom > 0 { lemma_mul_basics(pw(l)); if H[[slf]].len() > l { lemma_step(H[[slf]], 0, l); } } assert(nv(H, slf) == nv(h0, slf) * p2(nom as int));
            assert(canon(H[[slf]])) by { if nom > 0 && H[[slf]].len() == l && l > 1 { lemma_top(h0[[slf]]); lemma_p2_pos(nom as int); let p = p2(nom as int); let v = nv(h0, slf); lemma_nv_nonneg(h0, slf); assert(v * p >= v) by(nonlinear_arith) requires v >= 0, p >= 1; lemma_canon_big(H[[slf]]); } }'''),
      'before trim_head_zero:0': '''let t = H[[slf]]; let z = t.subrange(0, num as int); let s = t.subrange(num as int, t.len() as int); assert(t =~= z + s); lemma_zeros_cat(z, s); assert(s =~= hm[[slf]]);
          let v = nv(h0, slf); let p = p2(nom as int); let q = pw(num as int); assert(q * (v * p) == v * (q * p)) by(nonlinear_arith);'''},
  loops={0: dict(inv='''fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == h0[[slf]].len(), pre < p2(nom as int),
             forall|k: int| i0 <= k < H[[slf]].len() ==> H[[slf]][k] == h0[[slf]][k], rv(H[[slf]], 0, i0 as int) + pre * pw(i0 as int) == rv(h0[[slf]], 0, i0 as int) * p2(nom as int)''',
           ghost=['c0 = pre'], pre='lemma_p2_pos(nom as int);',
           le='''let n = i0 as int; let a = h0[[slf]][n]; let p = p2(nom as int); lemma_shl_step(a, c0, nom as u32); lemma_carry(H[[slf]][n] as int, pre as int, a * p + c0, pw(n)); lemma_step(H[[slf]], 0, n); lemma_step(h0[[slf]], 0, n);
                 lemma_dist2(a * p, c0 as int, pw(n)); lemma_dist2(rv(h0[[slf]], 0, n), a * pw(n), p); let q = pw(n); assert((a * p) * q == (a * q) * p) by(nonlinear_arith);''')})
L('lemma_shr_step', '''
/// one word of a right shift by 0 < s < 32 bits, as the code computes it with a rotation and two masks
pub proof fn lemma_shr_step(b: u32, pre: u32, s: u32, r: u32, mh: u32, ml: u32, w: u32)
  requires 0 < s < 32, r == (b >> s) | (b << ((32 - s) as u32)), mh == (((1u32 << s) - 1) as u32) << ((32 - s) as u32), ml == ((1u32 << ((32 - s) as u32)) - 1) as u32, w == (r & mh) | pre, pre as int * p2(s as int) < 0x1_0000_0000
  ensures (w + (r & ml) * 0x1_0000_0000) * p2(s as int) == pre * p2(s as int) + b * 0x1_0000_0000, (r & ml) * p2(s as int) <= b, (r & ml) == b as int / p2(s as int)
{
  let c = (32 - s) as u32; let P = p2(s as int); lemma_p2_0(); lemma_p2_lt(s as int, 32); lemma_p2_pos(s as int); lemma_shl32(1, s); assert(P == 1u32 << s) by { lemma_small_mod(P as nat, 0x1_0000_0000); }
  lemma_p2_add(s as int, c as int); let Q = p2(c as int); lemma_p2_lt(c as int, 32); lemma_p2_pos(c as int);
  assert((r & ml) == b >> s && (r & mh) == b << c) by(bit_vector) requires 0 < s < 32, c == (32 - s) as u32, r == (b >> s) | (b << c), mh == (((1u32 << s) - 1) as u32) << c, ml == ((1u32 << c) - 1) as u32;
  lemma_shr32(b, s); let q = b as int / P; let m = b as int % P; lemma_fundamental_div_mod(b as int, P);
  assert(pre < Q) by(nonlinear_arith) requires pre * P < 0x1_0000_0000, P * Q == 0x1_0000_0000, P >= 1, Q >= 1;
  lemma_shl32(1, c); assert(Q == 1u32 << c) by { lemma_small_mod(Q as nat, 0x1_0000_0000); }
  assert(((b << c) | pre) == (b << c) + pre) by(bit_vector) requires pre < (1u32 << c), 0 < c < 32;
  lemma_shl32(b, c); assert(b * Q == q * 0x1_0000_0000 + m * Q) by(nonlinear_arith) requires b == P * q + m, P * Q == 0x1_0000_0000;
  assert(0 <= m * Q < 0x1_0000_0000) by(nonlinear_arith) requires 0 <= m < P, P * Q == 0x1_0000_0000, Q >= 1;
  lemma_fundamental_div_mod_converse(b * Q, 0x1_0000_0000, q, m * Q);
  assert((m * Q + pre + q * 0x1_0000_0000) * P == pre * P + (P * q + m) * 0x1_0000_0000) by(nonlinear_arith) requires P * Q == 0x1_0000_0000;
  assert(q * P <= b) by(nonlinear_arith) requires b == P * q + m, m >= 0;
}''')
L('lemma_shr_fin', '''
/// quotient by the word part and the bit part of the shift together
pub proof fn lemma_shr_fin(v: int, lw: int, pn: int, R: int, P: int, low: int, d: int) requires v == lw + pn * (R * P + low), 0 <= lw < pn, 0 <= low < P, d == pn * P ensures v / d == R
{
  let rem = lw + pn * low; assert(0 <= rem < d) by(nonlinear_arith) requires rem == lw + pn * low, 0 <= lw < pn, 0 <= low < P, low + 1 <= P, d == pn * P;
  assert(v == d * R + rem) by(nonlinear_arith) requires v == lw + pn * (R * P + low), d == pn * P, rem == lw + pn * low;
  assert(d * R == R * d) by(nonlinear_arith); lemma_fundamental_div_mod_converse(v, d, R, rem);
}''')
L('lemma_shr_top', '''
pub proof fn lemma_shr_top(R: int, P: int, low: int, q: int) requires R * P + low >= 0x1_0000_0000 * q, 0 <= low < P, 1 <= P, 2 * P <= 0x1_0000_0000, q >= 1 ensures R >= q
{ if R < q { assert(R * P + low < 0x1_0000_0000 * q) by(nonlinear_arith) requires R + 1 <= q, 0 <= low < P, 2 * P <= 0x1_0000_0000, q >= 1, P >= 1; } }''')
F(NAT + 'shr_inner', 'shr_inner', props='C04 C06',
  req='cn(H, slf), !na(H, slf)', ens='fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), nv(H, slf) == nv(O, slf) / p2(rhs as int)',
  ghost=['P = p2((rhs % 32) as int)', 'N = rhs as int / 32', 'low = if rhs % 32 == 0 || rhs as int / 32 >= H[[slf]].len() { 0 } else { H[[slf]][rhs as int / 32] as int % p2((rhs % 32) as int) }'],
  at={'start': 'lemma_one_shl(); lemma_sh5(rhs); lemma_p2_split(rhs as int); lemma_p2_0(); lemma_p2_pos((rhs % 32) as int); lemma_p2_mono((rhs % 32) as int, 31); lemma_rv_bound(h0[[slf]], 0, h0[[slf]].len() as int); lemma_pw_pos(N); if low != 0 { lemma_mod_bound(h0[[slf]][N] as int, P); }',
      'ret:0': '''let n = h0[[slf]].len() as int; lemma_pw_mono(n, N); let a = pw(N); assert(a * P >= a) by(nonlinear_arith) requires a >= 1, P >= 1; lemma_val1(H[[slf]]); lemma_basic_div(nv(h0, slf), p2(rhs as int));''',
      'fi:1': ('hm = h@', ''),
      'ret:1': '''let n = h0[[slf]].len() as int; let m = n - N; let s = h0[[slf]]; lemma_rv_split(s, 0, N, m); lemma_rv_bound(s, 0, N); let R = nv(H, slf);
          if nom_1 > 0 { if H[[slf]].len() == m { lemma_step(H[[slf]], 0, m - 1); } lemma_rv_eq(H[[slf]], 0, hm[[slf]], 0, m - 1); if m == 1 && pre == 0 { lemma_val1(H[[slf]]); } lemma_mul_basics(pw(m - 1));
             if pre == 0 && m > 2 { lemma_step(s, N, m - 1); lemma_rv_bound(s, N, m - 1); let x = s[n - 1] as int; let q = pw(m - 1); lemma_pw_pos(m - 2); assert(x * q >= q) by(nonlinear_arith) requires x >= 1, q >= 1; lemma_shr_top(R, P, low, pw(m - 2)); lemma_canon_big(H[[slf]]); } }
          else { lemma_rv_eq(H[[slf]], 0, s, N, m); assert(R * 1 == R); }
          assert(R * P + low == rv(s, N, m));
          lemma_shr_fin(nv(h0, slf), rv(s, 0, N), pw(N), R, P, low, p2(rhs as int));'''},
  loops={0: dict(inv='''fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == h0[[slf]].len(), n0 == h0[[slf]].len() - N - 1, pre as int * P < 0x1_0000_0000, pre == h0[[slf]][N + i0] as int / P, 0 <= low < P,
             forall|k: int| i0 <= k < H[[slf]].len() ==> H[[slf]][k] == h0[[slf]][k], (rv(H[[slf]], 0, i0 as int) + pre * pw(i0 as int)) * P + low == rv(h0[[slf]], N, i0 + 1)''',
           ghost=['c0 = pre'],
           pre='''let x = h0[[slf]][N]; lemma_shr32(x, nom_1); lemma_fundamental_div_mod(x as int, P); lemma_mod_bound(x as int, P); lemma_step(h0[[slf]], N, 0); assert(pre * 1 == pre); assert(pre * P == P * pre) by(nonlinear_arith);''',
           le='''let n = i0 as int; let b = h0[[slf]][N + 1 + n]; let w = H[[slf]][n]; let q = pw(n); lemma_shr_step(b, c0, nom_1, r_v, mask_h, mask_l, w); lemma_step(H[[slf]], 0, n); lemma_step(h0[[slf]], N, n + 1); let X = rv(hl0[[slf]], 0, n); let BB = 0x1_0000_0000int;
              assert((X + w * q + pre * (BB * q)) * P == X * P + ((w + pre * BB) * P) * q) by(nonlinear_arith);
              assert((c0 * P + b * BB) * q == (c0 * q) * P + b * (BB * q)) by(nonlinear_arith);
              assert((X + c0 * q) * P == X * P + (c0 * q) * P) by(nonlinear_arith);''')})
NN1 = 'lemma_nv_nonneg(O, old(slf).nat); lemma_nv_nonneg(H, slf.nat);'
L('lemma_neg_shr', '''
pub proof fn lemma_neg_shr(x: int, d: int) requires d >= 1 ensures -((x - 1) / d + 1) == (-x) / d
{ let q = (x - 1) / d; let r = (x - 1) % d; lemma_fundamental_div_mod(x - 1, d); lemma_mod_bound(x - 1, d); assert(-x == (-q - 1) * d + (d - 1 - r)) by(nonlinear_arith) requires x - 1 == d * q + r; lemma_fundamental_div_mod_converse(-x, d, -q - 1, d - 1 - r); }''')
F(NAT + 'u32_shl', 'u32_shl', props='C04', req='ok(H, slf)', ens='fr(O, H, slf), H.len() == O.len(), !na(H, slf), lhs * p2((rhs % 32) as int) < 0x1_0000_0000 ==> nv(H, slf) == lhs * p2(rhs as int) && (lhs != 0 ==> cn(H, slf))',
  at={'start': 'lemma_sh5(rhs); lemma_p2_split(rhs as int); lemma_p2_pos((rhs % 32) as int);',
      'ret': '''let P = p2((rhs % 32) as int); let N = rhs as int / 32; lemma_shl32(lhs, (rhs % 32) as u32); lemma_rv_zero(H[[slf]], 0, N); lemma_step(H[[slf]], 0, N); if lhs * P < 0x1_0000_0000 { assert(lhs * P >= 0) by(nonlinear_arith) requires lhs >= 0, P >= 1; lemma_small_mod((lhs * P) as nat, 0x1_0000_0000); let q = pw(N); assert((lhs * P) * q == lhs * (q * P)) by(nonlinear_arith);
         if lhs != 0 { assert(lhs * P > 0) by(nonlinear_arith) requires lhs > 0, P >= 1; } }'''})
natop('Shl', 'shl', 'usize', 'nv(H, X) == A * p2(B as int)', 'C04', 'shl', mod='bit')
natop('Shr', 'shr', 'usize', 'nv(H, X) == A / p2(B as int)', 'C04', 'shr', mod='bit')
biop('Shl', 'shl', 'shl_inner', 'bv(H, X) == A * p2(B as int)', 'C04', rhs='usize', mod='bit',
  extra=dict(at={'ret': 'lemma_nv_nonneg(O, old(slf).nat); lemma_p2_pos(rhs as int); let a = nv(O, old(slf).nat); let b = p2(rhs as int); assert((-a) * b == -(a * b)) by(nonlinear_arith); if a != 0 { assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; }'}))
biop('Shr', 'shr', 'shr_inner', 'bv(H, X) == A / p2(B as int)', 'C04', rhs='usize', mod='bit',
  extra=dict(at={'ret': 'lemma_nv_nonneg(O, old(slf).nat); lemma_p2_pos(rhs as int); let a = nv(O, old(slf).nat); lemma_neg_shr(a, p2(rhs as int)); if old(slf).sign == BISign::Negative && a >= 1 { lemma_div_pos_is_pos(a - 1, p2(rhs as int)); }'}))
