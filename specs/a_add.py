F(A64 + 'add_inner_by_adcx', 'add_inner_by_adcx', props='C01',
  req='ok(H, lhs), ok(H, rhs)',
  ens='fr(O, H, lhs), H.len() == O.len(), nv(H, lhs) == nv(O, lhs) + nv(O, rhs), cn(O, lhs) && cn(O, rhs) ==> cn(H, lhs), !na(O, lhs) ==> !na(H, lhs)',
  loops={0: dict(inv='''fr(h0, H, lhs), H.len() == h0.len(), H[[lhs]].len() == h0[[lhs]].len(), carry <= 1,
             forall|k: int| i0 <= k < H[[lhs]].len() ==> H[[lhs]][k] == h0[[lhs]][k],
             rv(H[[lhs]], 0, i0 as int) + carry * pw(i0 as int) == rv(h0[[lhs]], 0, i0 as int) + rv(h0[[rhs]], 0, i0 as int)''',
           ghost=['c0 = carry'],
           le='''let n = i0 as int; lemma_addc(rv(hl0[[lhs]], 0, n), c0 as int, rv(h0[[lhs]], 0, n) + rv(h0[[rhs]], 0, n), H[[lhs]][n] as int, carry as int, h0[[lhs]][n] as int, h0[[rhs]][n] as int, n);
                 lemma_step(H[[lhs]], 0, n); lemma_step(h0[[lhs]], 0, n); lemma_step(h0[[rhs]], 0, n);'''),
         1: dict(inv='''fr(h0, H, lhs), H.len() == h0.len(), H[[lhs]].len() == h0[[lhs]].len(), carry <= 1,
             forall|k: int| rhs_len + i1 <= k < H[[lhs]].len() ==> H[[lhs]][k] == h0[[lhs]][k],
             rv(H[[lhs]], 0, rhs_len + i1) + carry * pw(rhs_len + i1) == rv(h0[[lhs]], 0, rhs_len + i1) + rv(h0[[rhs]], 0, rhs_len as int)''',
           ghost=['c0 = carry'],
           le='''let n = rhs_len + i1; lemma_addc(rv(hl1[[lhs]], 0, n), c0 as int, rv(h0[[lhs]], 0, n) + rv(h0[[rhs]], 0, rhs_len as int), H[[lhs]][n] as int, carry as int, h0[[lhs]][n] as int, 0, n);
                 lemma_step(H[[lhs]], 0, n); lemma_step(h0[[lhs]], 0, n);'''),
         2: dict(inv='''fr(h0, H, lhs), H.len() == h0.len(), H[[lhs]].len() == lhs_len + i2, carry <= 1, n2 > 0 ==> lhs != rhs,
             rv(H[[lhs]], 0, lhs_len + i2) + carry * pw(lhs_len + i2) == rv(h0[[lhs]], 0, lhs_len as int) + rv(h0[[rhs]], 0, lhs_len + i2)''',
           ghost=['c0 = carry'],
           le='''let n = lhs_len + i2; lemma_addc(rv(hl2[[lhs]], 0, n), c0 as int, rv(h0[[lhs]], 0, lhs_len as int) + rv(h0[[rhs]], 0, n), H[[lhs]][n] as int, carry as int, 0, h0[[rhs]][n] as int, n);
                 lemma_step(H[[lhs]], 0, n); lemma_step(h0[[rhs]], 0, n);''')},
  at={'ret': 'if carry > 0 { lemma_step(H[[lhs]], 0, H[[lhs]].len() - 1); } else { assert(carry * pw(H[[lhs]].len() as int) == 0) by(nonlinear_arith) requires carry == 0; if cn(O, lhs) && cn(O, rhs) { if h0[[lhs]].len() > 0 { lemma_rv_bound(h0[[lhs]], 0, h0[[lhs]].len() as int); if h0[[lhs]].len() > 1 { lemma_top(h0[[lhs]]); } } if h0[[rhs]].len() > 0 { lemma_rv_bound(h0[[rhs]], 0, h0[[rhs]].len() as int); if h0[[rhs]].len() > 1 { lemma_top(h0[[rhs]]); } } lemma_rv_bound(h0[[lhs]], 0, h0[[lhs]].len() as int); lemma_rv_bound(h0[[rhs]], 0, h0[[rhs]].len() as int); lemma_canon_big(H[[lhs]]); } }'})

F(A64 + 'add_inner', 'add_inner', props='C01 C06',
  req='ok(H, slf), ok(H, rhs)',
  ens='fr(O, H, slf), H.len() == O.len(), nv(H, slf) == nv(O, slf) + nv(O, rhs), cn(O, slf) && cn(O, rhs) ==> cn(H, slf), !na(O, slf) ==> !na(H, slf)')
F(A64 + 'add_inner_basic_by_adcx', 'add_inner_basic_by_adcx', props='C01 C06',
  req='ok(H, slf), !na(H, slf)',
  ens='fr(O, H, slf), H.len() == O.len(), nv(H, slf) == nv(O, slf) + rhs_p, cn(O, slf) ==> cn(H, slf), !na(H, slf)',
  loops={0: dict(inv="""fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == h0[[slf]].len(), carry <= 1, i0 == 0 ==> rhs == rhs_p && carry == 0, i0 > 0 ==> rhs == 0,
             forall|k: int| i0 <= k < H[[slf]].len() ==> H[[slf]][k] == h0[[slf]][k],
             i0 > 0 ==> rv(H[[slf]], 0, i0 as int) + carry * pw(i0 as int) == rv(h0[[slf]], 0, i0 as int) + rhs_p""",
           ghost=['c0 = carry', 'r0 = rhs'],
           le="""let n = i0 as int; lemma_addc(rv(hl0[[slf]], 0, n), c0 as int, if i0 == 0 { 0 } else { rv(h0[[slf]], 0, n) + rhs_p }, H[[slf]][n] as int, carry as int, h0[[slf]][n] as int, r0 as int, n);
                 lemma_step(H[[slf]], 0, n); lemma_step(h0[[slf]], 0, n); assert(pw(0) == 1); assert(r0 * 1 == r0); lemma_mul_basics(pw(n));""")},
  at={'ret': 'if carry > 0 { lemma_step(H[[slf]], 0, H[[slf]].len() - 1); } else { assert(0 * pw(H[[slf]].len() as int) == 0); if cn(O, slf) { if h0[[slf]].len() > 1 { lemma_top(h0[[slf]]); } lemma_canon_big(H[[slf]]); } }'})
F(A64 + 'add_inner_basic', 'add_inner_basic', props='C01 C06',
  req='ok(H, slf), !na(H, slf)',
  ens='fr(O, H, slf), H.len() == O.len(), nv(H, slf) == nv(O, slf) + rhs, cn(O, slf) ==> cn(H, slf), !na(H, slf)')
