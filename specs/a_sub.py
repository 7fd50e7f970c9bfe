_step = '''let n = %(n)s; lemma_subc(rv(%(hl)s[[slf]], 0, n), c0 as int, %(a)s, H[[slf]][n] as int, c as int, %(x)s, %(y)s, n);
           lemma_step(H[[slf]], 0, n); lemma_step(%(hl)s[[slf]], 0, n); lemma_step(hs[[slf]], 0, n); lemma_step(h0[[rhs]], 0, n);'''
_s1 = _step % dict(n='m + i1', hl='hl1', a='rv(hs[[slf]], 0, n) - rv(h0[[rhs]], 0, m)', x='hs[[slf]][n] as int', y='0') + ' q = m + i1 + 1;'
SUB_ENS = 'fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), r == (nv(O, slf) >= nv(O, rhs)), nv(H, slf) == (if r { nv(O, slf) - nv(O, rhs) } else { nv(O, rhs) - nv(O, slf) })'
F(A64 + 'sub_inner_with_sign_by_sbb', 'sub_inner_with_sign_by_sbb', props='C01 C06',
  req='cn(H, slf), cn(H, rhs), !na(H, slf), !na(H, rhs)', ens=SUB_ENS,
  loops={0: dict(gpre=['hs = h@'],
           pre='''if !is_ge { if h0[[slf]].len() > h0[[rhs]].len() { lemma_len_cmp(h0[[rhs]], h0[[slf]]); } lemma_val_take(hs[[slf]], h0[[slf]].len() as int); assert(hs[[slf]].take(h0[[slf]].len() as int) =~= h0[[slf]]); }
                  else { if h0[[slf]].len() < h0[[rhs]].len() { lemma_len_cmp(h0[[slf]], h0[[rhs]]); } } assert(val(hs[[slf]]) == nv(h0, slf));''',
           inv='''fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == hs[[slf]].len(), c <= 1,
             forall|k: int| i0 <= k < H[[slf]].len() ==> H[[slf]][k] == hs[[slf]][k],
             is_ge ==> rv(H[[slf]], 0, i0 as int) - c * pw(i0 as int) == rv(hs[[slf]], 0, i0 as int) - rv(h0[[rhs]], 0, i0 as int),
             !is_ge ==> rv(H[[slf]], 0, i0 as int) - c * pw(i0 as int) == rv(h0[[rhs]], 0, i0 as int) - rv(hs[[slf]], 0, i0 as int)''',
           ghost=['c0 = c'],
           le='if is_ge {' + _step % dict(n='i0 as int', hl='hl0', a='rv(hs[[slf]], 0, n) - rv(h0[[rhs]], 0, n)', x='hs[[slf]][n] as int', y='h0[[rhs]][n] as int') + '} else {'
             + _step % dict(n='i0 as int', hl='hl0', a='rv(h0[[rhs]], 0, n) - rv(hs[[slf]], 0, n)', x='h0[[rhs]][n] as int', y='hs[[slf]][n] as int') + '}'),
         1: dict(gpre=['m = h0[[rhs]].len() as int', 'mut q: int = h0[[rhs]].len() as int'],
           inv='''fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == hs[[slf]].len(), c <= 1, m <= q <= H[[slf]].len(), forall|k: int| q <= k < H[[slf]].len() ==> H[[slf]][k] == hs[[slf]][k],
             rv(H[[slf]], 0, q) - c * pw(q) == rv(hs[[slf]], 0, q) - rv(h0[[rhs]], 0, m)''', invx='q == m + i1', ens='c == 0 || q == H[[slf]].len()',
           ghost=['c0 = c'], le=_s1,
           post='lemma_tail_eq(H[[slf]], hs[[slf]], q, H[[slf]].len() as int); if q == H[[slf]].len() { lemma_noborrow(H[[slf]], q, c as int); } lemma_mul_basics(pw(q));')},
  at={'break:1': _s1,
      'else:2': '''if is_ge { let m = h0[[rhs]].len() as int; lemma_mul_basics(pw(m)); lemma_tail_eq(H[[slf]], hs[[slf]], m, H[[slf]].len() as int); }
           else { lemma_noborrow(H[[slf]], H[[slf]].len() as int, c as int); }'''})
F(A64 + 'sub_inner_with_sign', 'sub_inner_with_sign', props='C01', req='cn(H, slf), cn(H, rhs), !na(H, slf), !na(H, rhs)', ens=SUB_ENS)
ABSDIFF = 'nv(H, {0}) == (if nv(O, slf) >= {1} {{ nv(O, slf) - {1} }} else {{ {1} - nv(O, slf) }})'
F(A64 + 'sub_inner', 'sub_inner', props='C01', req='cn(H, slf), cn(H, rhs), !na(H, slf), !na(H, rhs)',
  ens='fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), ' + ABSDIFF.format('slf', 'nv(O, rhs)'))

F(A64 + 'sub_inner_basic_by_sbb', 'sub_inner_basic_by_sbb', props='C01 C06',
  req='cn(H, slf), H[[slf]].len() > 1',
  ens='fr(O, H, slf), H.len() == O.len(), nv(H, slf) == nv(O, slf) - rhs_p, cn(H, slf), !na(H, slf)',
  loops={0: dict(inv="""fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == h0[[slf]].len(), c <= 1, i0 == 0 ==> rhs == rhs_p && c == 0, i0 > 0 ==> rhs == 0,
             forall|k: int| i0 <= k < H[[slf]].len() ==> H[[slf]][k] == h0[[slf]][k],
             i0 > 0 ==> rv(H[[slf]], 0, i0 as int) - c * pw(i0 as int) == rv(h0[[slf]], 0, i0 as int) - rhs_p""",
           ghost=['c0 = c', 'r0 = rhs'],
           le="""let n = i0 as int; lemma_subc(rv(hl0[[slf]], 0, n), c0 as int, if i0 == 0 { 0 } else { rv(h0[[slf]], 0, n) - rhs_p }, H[[slf]][n] as int, c as int, h0[[slf]][n] as int, r0 as int, n);
                 lemma_step(H[[slf]], 0, n); lemma_step(h0[[slf]], 0, n); assert(pw(0) == 1); assert(r0 * 1 == r0); lemma_mul_basics(pw(n));""")},
  at={'before trim_head_zero:0': 'lemma_top(h0[[slf]]); lemma_pw_mono(1, h0[[slf]].len() - 1); assert(pw(1) == 0x1_0000_0000 * pw(0)); lemma_noborrow(H[[slf]], H[[slf]].len() as int, c as int);'})
F(A64 + 'sub_inner_basic', 'sub_inner_basic', props='C01 C06',
  req='cn(H, slf), !na(H, slf)',
  ens='fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), ' + ABSDIFF.format('slf', 'rhs'),
  at={'ret': 'if H[[slf]].len() == 1 { lemma_val1(H[[slf]]); } if O[[slf]].len() == 1 { lemma_val1(O[[slf]]); } else { lemma_top(O[[slf]]); lemma_pw_mono(1, O[[slf]].len() - 1); assert(pw(1) == 0x1_0000_0000 * pw(0)); }'})
