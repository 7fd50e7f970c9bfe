# ---- trimming, comparison, equality, construction
F(NAT + 'trim_head_zero_', 'trim_head_zero_', props='C06',
  req='ok(H, v)',
  ens='''fr(O, H, v), H.len() == O.len(), canon(H[[v]]), nv(H, v) == nv(O, v), H[[v]].len() <= O[[v]].len(), (H[[v]].len() == 0) == (O[[v]].len() == 0),
         H[[v]] == O[[v]].take(H[[v]].len() as int), canon(O[[v]]) ==> H[[v]] == O[[v]]''',
  loops={0: dict(invx='H == h0, i == i0, i0 < O[[v]].len() || O[[v]].len() == 0, forall|k: int| O[[v]].len() - i0 <= k < O[[v]].len() ==> O[[v]][k] == 0',
                 ens='H == h0, 0 <= i, i < O[[v]].len() || O[[v]].len() == 0, forall|k: int| O[[v]].len() - i <= k < O[[v]].len() ==> O[[v]][k] == 0, i < O[[v]].len() - 1 ==> O[[v]][O[[v]].len() - 1 - i] != 0')},
  at={'ret': 'lemma_val_take(O[[v]], H[[v]].len() as int); assert(canon(O[[v]]) ==> H[[v]] =~= O[[v]]);'})
F(NAT + 'trim_head_zero', 'trim_head_zero', props='C06',
  req='ok(H, slf)',
  ens='''fr(O, H, slf), H.len() == O.len(), canon(H[[slf]]), nv(H, slf) == nv(O, slf), H[[slf]].len() <= O[[slf]].len(), (H[[slf]].len() == 0) == (O[[slf]].len() == 0),
         H[[slf]] == O[[slf]].take(H[[slf]].len() as int), canon(O[[slf]]) ==> H[[slf]] == O[[slf]]''')
F(NAT + 'partial_cmp_inner', 'partial_cmp_inner', props='C06', pure=True,
  req='(cn(H, slf) && cn(H, rhs)) || (ok(H, slf) && ok(H, rhs) && H[[slf]].len() == H[[rhs]].len()), !na(H, slf), !na(H, rhs)',
  ens='r == ordv(nv(H, slf), nv(H, rhs))',
  loops={0: dict(inv='forall|k: int| H[[slf]].len() - i0 <= k < H[[slf]].len() ==> H[[slf]][k] == H[[rhs]][k]')},
  at={'ret:0': 'lemma_cmp_at(H[[slf]], H[[rhs]], H[[slf]].len() as int, H[[slf]].len() - 1 - i0);',
      'ret:1': 'lemma_cmp_at(H[[rhs]], H[[slf]], H[[slf]].len() as int, H[[slf]].len() - 1 - i0);',
      'ret:2': '''if H[[slf]].len() < H[[rhs]].len() { lemma_len_cmp(H[[slf]], H[[rhs]]); } else if H[[slf]].len() > H[[rhs]].len() { lemma_len_cmp(H[[rhs]], H[[slf]]); } else { assert(H[[slf]] =~= H[[rhs]]); }'''})
F(N + 'core::cmp::PartialOrd>::partial_cmp', 'nat_partial_cmp', props='C06 C07', pure=True,
  req='(cn(H, slf) && cn(H, other)) || (ok(H, slf) && ok(H, other) && H[[slf]].len() == H[[other]].len())',
  ens='r == (if na(H, slf) || na(H, other) { None } else { Some(ordv(nv(H, slf), nv(H, other))) })')
F(N + 'core::cmp::PartialEq>::eq', 'nat_eq', props='C06 C07', pure=True,
  req='cn(H, slf), cn(H, other)',
  ens='r == (!na(H, slf) && !na(H, other) && nv(H, slf) == nv(H, other))',
  at={'ret': 'if !na(H, slf) && !na(H, other) && nv(H, slf) == nv(H, other) { lemma_canon_eq(H[[slf]], H[[other]]); }'})
F(N + 'core::convert::From<alloc::vec::Vec<u32>>>::from', 'nat_from_vec', props='C11 C06',
  req='ok(H, x)', ens='fr(O, H, x), r == x, cn(H, r), nv(H, r) == nv(O, x), H.len() == O.len(), na(H, r) == na(O, x), canon(O[[x]]) ==> H[[r]] == O[[x]]')
F(N + 'core::convert::From<&alloc::vec::Vec<u32>>>::from', 'nat_from_vecref', props='C11 C08',
  req='ok(H, x)', ens='ex(O, H), r >= O.len(), cn(H, r), nv(H, r) == nv(O, x), na(H, r) == na(O, x)')
F(N + 'core::convert::From<&[u32]>>::from', 'nat_from_slice', props='C11 C08',
  req='ok(H, x.c), x.lo <= x.hi <= H[[x.c]].len()', ens='ex(O, H), r >= O.len(), cn(H, r), nv(H, r) == rv(O[[x.c]], x.lo as int, x.hi - x.lo), na(H, r) == (x.lo == x.hi), x.lo == 0 && x.hi == O[[x.c]].len() && canon(O[[x.c]]) ==> H[[r]] == O[[x.c]]',
  at={'ret': 'let s = O[[x.c]].subrange(x.lo as int, x.hi as int); lemma_rv_eq(s, 0, O[[x.c]], x.lo as int, x.hi - x.lo); if x.lo == 0 && x.hi == O[[x.c]].len() { assert(s =~= O[[x.c]]); }'})
F(NAT + 'deep_clone', 'nat_deep_clone', props='C08',
  req='cn(H, slf)', ens='ex(O, H), r >= O.len(), cn(H, r), nv(H, r) == nv(O, slf), na(H, r) == na(O, slf), H[[r]] == O[[slf]]')
for t in ('u8', 'u16', 'u32'):
    F(N + 'core::convert::From<%s>>::from' % t, 'nat_from_' + t, props='C11 C06',
      ens='ex(O, H), r >= O.len(), cn(H, r), !na(H, r), nv(H, r) == x, H[[r]].len() == 1', at={'ret': 'lemma_val1(H[[RES]]);'})
