# ---- integer square root
L('lemma_newton', '''
pub proof fn lemma_newton(N: int, z: int, q: int, w: int) requires N >= 2, z >= 1, (z + 1) * (z + 1) > N, q == N / z, w == (q + z) / 2 ensures (w + 1) * (w + 1) > N, w >= 1, w >= z ==> z * z <= N
{ lemma_fundamental_div_mod(N, z); lemma_mod_bound(N, z); lemma_div_pos_is_pos(N, z); let s = q + 1;
  assert(z * s >= N + 1) by(nonlinear_arith) requires N == z * q + N % z, N % z < z, s == q + 1;
  assert((s + z) * (s + z) >= 4 * (z * s)) by(nonlinear_arith);
  let u = 2 * (w + 1); assert(u >= s + z); assert(u * u >= (s + z) * (s + z)) by(nonlinear_arith) requires u >= s + z, s + z >= 0;
  assert(u * u == 4 * ((w + 1) * (w + 1))) by(nonlinear_arith) requires u == 2 * (w + 1);
  if w < 1 { assert(w == 0); assert(1 * 1 == 1); }
  if w >= z { assert(q >= z); assert(z * z <= z * q) by(nonlinear_arith) requires q >= z, z >= 1; } }
''')
SQ = '{v} * {v} <= {n} < ({v} + 1) * ({v} + 1)'
F(NAT + 'sqrt', 'nat_sqrt', props='C14 C06 C07 C08', req='cn(H, slf)', ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == na(O, slf), !na(H, r) ==> ' + SQ.format(v='nv(H, r)', n='nv(O, slf)'),
  ghost=['N = nv(h0, slf)'],
  loops={0: dict(inv='ex(h0, H), cn(H, z1), !na(H, z1), z1 >= h0.len(), nv(H, z1) >= 1, (nv(H, z1) + 1) * (nv(H, z1) + 1) > N', dec='nv(H, z1)', ghost=['g1 = nv(h@, z1)'],
    pre='''let b = bits_len_0 as int; let e = (b + 1) / 2; assert(forall|x: usize| #[trigger] (x >> 1) == x / 2) by(bit_vector); lemma_p2_add(e, e); lemma_p2_mono(b, e + e); lemma_p2_pos(e); lemma_blen_ge(N); let v = nv(H, z1); assert(v == p2(e)) by { assert(1 * p2(e) == p2(e)); } assert((v + 1) * (v + 1) > v * v) by(nonlinear_arith) requires v >= 1;''',
    ls='')},
  at={'start': 'lemma_p2_0(); if N == 0 { assert(0 * 0 == 0); assert((0 + 1) * (0 + 1) == 1); } if N == 1 { assert(1 * 1 == 1); assert((N + 1) * (N + 1) == 4) by(nonlinear_arith) requires N == 1; }',
      'after nat_partial_cmp:0': 'lemma_newton(N, g1, N / g1, nv(H, z2));'})
F(BI + 'sqrt', 'bi_sqrt', props='C14 C06 C07 C08', req='cb(H, slf)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == (nb(O, slf) || bv(O, slf) < 0), !nb(H, r) ==> bv(H, r) >= 0 && ' + SQ.format(v='bv(H, r)', n='bv(O, slf)'))
