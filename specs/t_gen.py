# The deterministic generators
L('lemma_gen_defs', '''
/// iterates of the seeding generator x -> 40014 x mod 2147483563
pub open spec fn lcrk(x: int, k: int) -> int decreases k { if k <= 0 { x } else { (40014 * lcrk(x, k - 1)) % 2147483563 } }
pub proof fn lemma_lcrk(x: int, k: int) requires k >= 1 ensures 0 <= lcrk(x, k) < 2147483563, lcrk(x, k) == (40014 * lcrk(x, k - 1)) % 2147483563 { lemma_mod_bound(40014 * lcrk(x, k - 1), 2147483563); }
/// word i of the initial state of a lagged Fibonacci generator of w bit words
pub open spec fn lfv(x: int, w: int, i: int) -> int { (if w <= 32 { lcrk(x, i + 1) } else { lcrk(x, 2 * i + 1) + 0x1_0000_0000 * lcrk(x, 2 * i + 2) }) % p2(w) }
''')
L('lemma_lfw', '''
pub proof fn lemma_lfw(x: int, f: int) requires 0 <= x < 0x8000_0000, f == 1 || f == 0x1_0000_0000 ensures (x * f) % 0x1_0000_0000_0000_0000 == (if f == 1 { x } else { 0x1_0000_0000 * x }), (f * 0x1_0000_0000) % 0x1_0000_0000_0000_0000 == (if f == 1 { 0x1_0000_0000int } else { 0 }), (f * 0) == 0
{ if f == 1 { lemma_mul_basics(x); lemma_small_mod(x as nat, 0x1_0000_0000_0000_0000); } else { assert(x * f == x * 0x1_0000_0000); lemma_small_mod((0x1_0000_0000 * x) as nat, 0x1_0000_0000_0000_0000); } lemma_mul_basics(f); }
''')
LCRH = 'let a = slf.a as int; let x = slf.x as int; let m = slf.m as int; assert(0 <= a * x <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= a <= 0xffff_ffff_ffff_ffff, 0 <= x <= 0xffff_ffff_ffff_ffff; lemma_mod_bound(a * x + slf.c, m);'
T3 = ('u32', 'usize', 'u64')
for t in T3:
    W = 32 if t == 'u32' else 64
    LCR = '<rand::linear_congruential_rand::LinearCongruentialRand<%s> as rand::Source<%s>>::' % (t, t)
    F('rand::linear_congruential_rand::LinearCongruentialRand::<T>::new@' + t, 'lcr_new_' + t, props='C19', noheap=True, pure=True, ens='r is Ok == (m != 0 && sd.ok@), r is Ok ==> r->Ok_0.a == a && r->Ok_0.c == c && r->Ok_0.m == m && r->Ok_0.x == sd.v@ as %s' % t)
    F(LCR + 'gen', 'lcr_gen_' + t, at={'start': LCRH}, props='C19', noheap=True, pure=True, req='slf.m != 0',
      ens='r is Ok, r->Ok_0 == (old(slf).a * old(slf).x + old(slf).c) %% (old(slf).m as int), final(slf).x == r->Ok_0, final(slf).a == old(slf).a, final(slf).c == old(slf).c, final(slf).m == old(slf).m' % ())
    F(LCR + 'reset', 'lcr_reset_' + t, props='C19', noheap=True, pure=True, ens='r is Ok == sd.ok@, final(slf).x == if sd.ok@ { sd.v@ as %s } else { old(slf).x }, final(slf).a == old(slf).a, final(slf).c == old(slf).c, final(slf).m == old(slf).m' % t)
    LF = 'rand::lagged_fibonacci_rand::LaggedFibonacciRand::<%s>::' % t
    LFS = '<rand::lagged_fibonacci_rand::LaggedFibonacciRand<%s> as rand::Source<%s>>::' % (t, t)
    MTS = '<rand::mersenne_twister_rand::MersenneTwisterRand<%s> as rand::Source<%s>>::' % (t, t)
    MT = 'rand::mersenne_twister_rand::MersenneTwisterRand::<%s>::' % t
    N_, O_, C_ = ('H[[final(slf).state]]', 'O[[old(slf).state]]', 'H[[slf.state]]') if t == 'u32' else ('final(slf).state@', 'old(slf).state@', 'slf.state@')
    HREQ = 'ok(H, slf.state)' if t == 'u32' else '1 == 1'
    HREQM = 'ok(H, old(slf).state)' if t == 'u32' else '1 == 1'
    FR = 'fr(O, H, old(slf).state), H.len() == O.len(), final(slf).state == old(slf).state' if t == 'u32' else 'H == O'
    FRC = 'fr(h0, H, slf.state), H.len() == h0.len(), slf.state == old(slf).state' if t == 'u32' else 'H == h0'
    RMAX = '0x7fff_ffff' if t == 'u32' else '0x0fff_ffff_ffff_ffff'
    def X(s): return s.replace('TT', t).replace('_T', '_' + t).replace('WW', str(W)).replace('RMAX', RMAX).replace('@N', N_).replace('@O', O_).replace('@C', C_).replace('@FRC', FRC).replace('@FR', FR).replace('@HREQ', HREQM)
    L('lemma_mask_' + t, X("""
pub proof fn lemma_mask_T(x: TT, m: TT, w: int) requires 0 <= w <= WW, m == p2(w) - 1 ensures (m & x) == x as int % p2(w), (x & m) == x as int % p2(w), 0 <= x as int % p2(w) < p2(w) <= p2(WW), p2(WW) == MAXX
{ lemma2_to64(); lemma_p2_small(); lemma_p2_mono(w, WW); lemma_p2_pos(w); lemma_mod_bound(x as int, p2(w)); let n = w as nat; let a = x as u64; let b = m as u64;
  assert((m & x) as u64 == a & b) by(bit_vector) requires a == x as u64, b == m as u64; assert((x & m) as u64 == a & b) by(bit_vector) requires a == x as u64, b == m as u64;
  if w < 64 { lemma_p2_lt(w, 64); lemma_u64_low_bits_mask_is_mod(a, n); assert(b == low_bits_mask(n)); }
  else { assert(a & b == a) by(bit_vector) requires b == 0xffff_ffff_ffff_ffffu64; lemma_small_mod(x as nat, p2(w) as nat); } }
""".replace('MAXX', '0x1_0000_0000' if W == 32 else '0x1_0000_0000_0000_0000')))
    L('lemma_shl1_' + t, X('''
pub proof fn lemma_shl1_T(s: TT) requires s <= WW ensures s < WW ==> (s & MM) == s && 1TT << s == p2(s as int), p2(WW) == MAXX, p2(s as int) >= 1, p2(s as int) <= MAXX
{ lemma2_to64(); lemma_p2_pos(s as int); lemma_p2_mono(s as int, WW); if s < WW { assert((s & MM) == s) by(bit_vector) requires s < WW; lemma_p2_lt(s as int, WW); BODY } }
'''.replace('MM', str(W - 1)).replace('MAXX', '0x1_0000_0000' if W == 32 else '0x1_0000_0000_0000_0000').replace('BODY', {'u32': 'lemma_u32_shl_is_mul(1, s);', 'u64': 'lemma_u64_shl_is_mul(1, s);', 'usize': 'let q = s as u64; lemma_u64_shl_is_mul(1, q); assert((1usize << s) as u64 == 1u64 << q) by(bit_vector) requires q == s as u64, s < 64;'}[t])))
    F('<%s as rand::PrimitiveType>::mask' % t, 'mask_' + t, at={'start': 'lemma_shl1_%s(slf);' % t}, props='C19', noheap=True, pure=True, req='slf <= WW'.replace('WW', str(W)), ens='r == p2(slf as int) - 1')
    L('lf_' + t + '|lfp_T|lfok_T|lfst_T|lfc_T|lfx_T'.replace('_T', '_' + t), X('''
/// parameters new accepts (and a state which fits the address space)
pub open spec fn lfp_T(g: LaggedFibonacciRand_T) -> bool { 1 <= g.word_size <= WW && 1 <= g.short_lag < g.long_lag <= RMAX }
pub open spec fn lfok_T(g: LaggedFibonacciRand_T, st: Seq<TT>) -> bool { g.seed is Ok ==> st.len() == g.long_lag && (forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]) < p2(g.word_size as int)) && g.idx < g.long_lag && g.carry <= 1 }
/// the state, carry and position the next draw starts from
pub open spec fn lfst_T(g: LaggedFibonacciRand_T, st: Seq<TT>) -> Seq<TT> { if g.seed is Err { Seq::new(g.long_lag as nat, |i: int| lfv(g.seed->Err_0 as int, g.word_size as int, i) as TT) } else { st } }
pub open spec fn lfc_T(g: LaggedFibonacciRand_T) -> int { if g.seed is Err { if lfv(g.seed->Err_0 as int, g.word_size as int, g.long_lag - 1) == 0 { 1 } else { 0 } } else { g.carry as int } }
pub open spec fn lfx_T(g: LaggedFibonacciRand_T) -> int { if g.seed is Err { 0 } else { g.idx as int } }
'''))
    SAME = 'final(slf).word_size == old(slf).word_size, final(slf).short_lag == old(slf).short_lag, final(slf).long_lag == old(slf).long_lag'
    KK = '(if slf.word_size <= 32 { i0 as int } else { 2 * i0 })'
    LC = 'lcr.a == 40014, lcr.c == 0, lcr.m == 2147483563'
    NN = ', n == (if slf.word_size <= 32 { 1int } else { 2 }), h0 == old(h)@, n0 == slf.long_lag, slf.seed->Err_0 == x, slf.seed is Err, ' + X('lfp_T(*old(slf))')
    CTX = X('@FRC, slf.word_size == old(slf).word_size, slf.short_lag == old(slf).short_lag, slf.long_lag == old(slf).long_lag, slf.seed == old(slf).seed, @C.len() == i0, forall|j: int| 0 <= j < i0 ==> (#[trigger] @C[j]) == lfv(x as int, slf.word_size as int, j) && @C[j] < p2(slf.word_size as int)')
    F(LF + 'check_init', 'lfr_init_' + t, props='C19', iso=(t != 'u32'), rlimit=30, req=X('@HREQ, lfp_T(*old(slf)), lfok_T(*old(slf), @O)'.replace('O[[', 'H[[')).replace('O[[', 'H[['),
      ens=X('@FR, ' + SAME + ', final(slf).seed is Ok, lfok_T(*final(slf), @N), @N == lfst_T(*old(slf), @O), final(slf).carry == lfc_T(*old(slf)), final(slf).idx == lfx_T(*old(slf))'),
      at={'before n': ''} and {
          'arm:0': X('assert((((slf.word_size + 31) as TT) >> 5) == (if slf.word_size <= 32 { 1TT } else { 2TT })) by(bit_vector) requires 1 <= slf.word_size <= WW;').replace('slf.word_size', 'wz').join(['let wz = slf.word_size; ', '']),
          'armend:0': X('assert(@C =~= lfst_T(*old(slf), @C));')},
      loops={0: dict(inv=LC + ', lcr.x == lcrk(x as int, ' + KK + '), ' + CTX + NN,
                     post='', le=X('lemma_mask_T(sum, mask_T_MI, slf.word_size as int); lemma_p2_small();').replace('MI', '0' if W == 32 else '1')),
             1: dict(inv=LC + NN + ', i0 < n0, n1 == n, lcr.x == lcrk(x as int, ' + KK + ' + i1), sum == (if i1 == 0 { 0 } else if i1 == 1 { lcrk(x as int, KK + 1) } else { lcrk(x as int, KK + 1) + 0x1_0000_0000 * lcrk(x as int, KK + 2) }), factor == (if i1 == 0 { 1int } else if i1 == 1 && WW == 64 { 0x1_0000_0000 } else { 0 })'.replace('WW', str(W)).replace('KK', KK),
                     ls='lemma_lcrk(x as int, ' + KK + ' + i1 + 1); lemma_lcrk(x as int, ' + KK + ' + 1);' + ('' if W == 32 else ' lemma_p2_small(); lemma_lfw(lcrk(x as int, ' + KK + ' + i1 + 1), factor as int);'))})
    OWNS = ', r is Ok ==> O.len() <= r->Ok_0.state < H.len(), ex(O, H)' if t == 'u32' else ', H == O'
    F('rand::lagged_fibonacci_rand::LaggedFibonacciRand::<T>::new@' + t, 'lfr_new_' + t, props='C19', ens=X('r is Ok == (1 <= w <= WW && 1 <= s < r_v && sd.ok@), r is Ok ==> r->Ok_0.word_size == w && r->Ok_0.short_lag == s && r->Ok_0.long_lag == r_v && r->Ok_0.seed == Result::<TT, TT>::Err(sd.v@ as TT)') + OWNS)
    L('lfd_' + t, X("""
/// the difference x(i-s) - x(i-r) - carry of the recurrence: position idx holds x(i-r)
pub open spec fn lfd_T(g: LaggedFibonacciRand_T, st: Seq<TT>) -> int { let s = lfst_T(g, st); let i = lfx_T(g); s[if i < g.short_lag { i + g.long_lag - g.short_lag } else { i - g.short_lag }] - s[i] - lfc_T(g) }
"""))
    LFR = X('@HREQ, lfp_T(*old(slf)), lfok_T(*old(slf), @O)').replace('O[[', 'H[[')
    F(LFS + 'gen', 'lfr_gen_' + t, props='C19', rlimit=30, req=LFR,
      ens=X('@FR, ' + SAME + ', final(slf).seed is Ok, lfp_T(*final(slf)), lfok_T(*final(slf), @N), r is Ok, r->Ok_0 == (if lfd_T(*old(slf), @O) < 0 { lfd_T(*old(slf), @O) + p2(old(slf).word_size as int) } else { lfd_T(*old(slf), @O) }), @N == lfst_T(*old(slf), @O).update(lfx_T(*old(slf)), r->Ok_0), final(slf).carry == (if lfd_T(*old(slf), @O) < 0 { 1int } else { 0 }), final(slf).idx == (if lfx_T(*old(slf)) + 1 == old(slf).long_lag { 0 } else { lfx_T(*old(slf)) + 1 })'),
      at={'start': X('lemma_shl1_T(slf.word_size);')})
    F(LFS + 'reset', 'lfr_reset_' + t, props='C19', req=X('@HREQ, lfp_T(*old(slf)), lfok_T(*old(slf), @O)').replace('O[[', 'H[['),
      ens=X('@FR, ' + SAME + ', r is Ok == sd.ok@, lfok_T(*final(slf), @N), r is Err ==> *final(slf) == *old(slf) && @N == @O, r is Ok ==> final(slf).seed is Ok && @N == lfst_T(LaggedFibonacciRand_T { seed: Err(sd.v@ as TT), ..*old(slf) }, @O) && final(slf).carry == lfc_T(LaggedFibonacciRand_T { seed: Err(sd.v@ as TT), ..*old(slf) }) && final(slf).idx == 0'))
    L('mt_' + t + '|mtp_T|mtok_T|mti_T|mtw_T|mtst_T|mtx_T|mtz_T|mtup_T'.replace('_T', '_' + t), X("""
/// parameters new accepts (and a state which fits the address space)
pub open spec fn mtp_T(g: MersenneTwisterRand_T) -> bool { 2 <= g.word_size <= WW && 1 <= g.shift_size <= g.state_size <= RMAX && 1 <= g.mask_bits < g.word_size && g.tempering_u < g.word_size && g.tempering_s < g.word_size && g.tempering_t < g.word_size && 1 <= g.shift_l < g.word_size }
pub open spec fn mtok_T(g: MersenneTwisterRand_T, st: Seq<TT>) -> bool { g.seed is Ok ==> st.len() == g.state_size && g.idx <= g.state_size }
/// word i of the initial state
pub open spec fn mti_T(g: MersenneTwisterRand_T, i: int) -> TT decreases i { if i <= 0 { (g.seed->Err_0 as int % p2(g.word_size as int)) as TT } else { let p = mti_T(g, i - 1); (((p ^ (p >> ((g.word_size - 2) as TT))) * g.init_multiplier + i) % p2(g.word_size as int)) as TT } }
/// the state after k steps of the recurrence, in place: word i becomes x(i+n)
pub open spec fn mtw_T(g: MersenneTwisterRand_T, s0: Seq<TT>, k: int) -> Seq<TT> decreases k { if k <= 0 { s0 } else {
  let s = mtw_T(g, s0, k - 1); let i = k - 1; let n = g.state_size as int; let up = !0TT << g.mask_bits;
  let y = (s[i] & up) | (s[if i + 1 < n { i + 1 } else { 0 }] & !up);
  s.update(i, s[if i + g.shift_size < n { i + g.shift_size } else { i + g.shift_size - n }] ^ (y >> 1TT) ^ (if y & 1 == 1 { g.xor_mask } else { 0 })) } }
/// the initialised state, and the position of the next draw in it
pub open spec fn mtst_T(g: MersenneTwisterRand_T, st: Seq<TT>) -> Seq<TT> { if g.seed is Err { Seq::new(g.state_size as nat, |i: int| mti_T(g, i)) } else { st } }
pub open spec fn mtx_T(g: MersenneTwisterRand_T) -> int { if g.seed is Err { g.state_size as int } else { g.idx as int } }
/// state and position when a word is drawn: a spent state is advanced by n steps first
pub open spec fn mtup_T(g: MersenneTwisterRand_T, st: Seq<TT>) -> (Seq<TT>, int) { if mtx_T(g) >= g.state_size { (mtw_T(g, mtst_T(g, st), g.state_size as int), 0) } else { (mtst_T(g, st), mtx_T(g)) } }
/// tempering
pub open spec fn mtz_T(g: MersenneTwisterRand_T, x: TT) -> TT { let a = x ^ ((x >> g.tempering_u) & g.tempering_d); let b = a ^ ((a << g.tempering_s) & g.tempering_b); let c = b ^ ((b << g.tempering_t) & g.tempering_c); c ^ (c >> g.shift_l) }
"""))
    L('lemma_mtw_' + t, X("""
pub proof fn lemma_mtw_T(g: MersenneTwisterRand_T, s: Seq<TT>, k: int) ensures mtw_T(g, s, k).len() == s.len() decreases k { if k > 0 { lemma_mtw_T(g, s, k - 1); } }
pub proof fn lemma_mtx_T(g: MersenneTwisterRand_T, f: MersenneTwisterRand_T, s: Seq<TT>, k: int) requires mtsame_T(g, f) ensures mtw_T(g, s, k) == mtw_T(f, s, k) decreases k { if k > 0 { lemma_mtx_T(g, f, s, k - 1); } }
/// the same parameters
pub open spec fn mtsame_T(g: MersenneTwisterRand_T, f: MersenneTwisterRand_T) -> bool { g == MersenneTwisterRand_T { idx: g.idx, seed: g.seed, state: g.state, ..f } }
pub proof fn lemma_mti_T(g: MersenneTwisterRand_T, f: MersenneTwisterRand_T, k: int) requires mtsame_T(g, f), g.seed == f.seed ensures mti_T(g, k) == mti_T(f, k) decreases k { if k > 0 { lemma_mti_T(g, f, k - 1); } }
pub proof fn lemma_mtmod_T(x: int, w: int) requires 0 <= w <= WW ensures (x % p2(WW)) % p2(w) == x % p2(w), p2(WW) == MAXX { lemma2_to64(); lemma_p2_pos(w); lemma_p2_pos(WW - w); lemma_p2_add(w, WW - w); lemma_mod_mod(x, p2(w), p2(WW - w)); }
""".replace('MAXX', '0x1_0000_0000' if W == 32 else '0x1_0000_0000_0000_0000')))
    OWNM = ', r is Ok ==> O.len() <= r->Ok_0.state < H.len(), ex(O, H)' if t == 'u32' else ', H == O'
    F('rand::mersenne_twister_rand::MersenneTwisterRand::<T>::new@' + t, 'mt_new_' + t, props='C19', rlimit=30,
      ens=X('r is Ok == (2 <= w <= WW && 1 <= m <= n && 1 <= r_v < w && 1 <= a < p2(w as int) && u_d.0 < w && u_d.1 < p2(w as int) && (u_d.0 > 0 || u_d.1 > 0) && s_b.0 < w && s_b.1 < p2(w as int) && (s_b.0 > 0 || s_b.1 > 0) && t_c.0 < w && t_c.1 < p2(w as int) && (t_c.0 > 0 || t_c.1 > 0) && 1 <= l < w && 1 <= f < p2(w as int) && sd.ok@), r is Ok ==> { let g = r->Ok_0; g.word_size == w && g.state_size == n && g.shift_size == m && g.mask_bits == r_v && g.xor_mask == a && g.tempering_u == u_d.0 && g.tempering_d == u_d.1 && g.tempering_s == s_b.0 && g.tempering_b == s_b.1 && g.tempering_t == t_c.0 && g.tempering_c == t_c.1 && g.shift_l == l && g.init_multiplier == f && g.seed == Result::<TT, TT>::Err(sd.v@ as TT) }') + OWNM)
    MREQ = X('@HREQ, mtp_T(*old(slf)), mtok_T(*old(slf), @O)').replace('O[[', 'H[[')
    MFR = X('@FR, mtsame_T(*final(slf), *old(slf)), mtp_T(*final(slf))')
    F(MT + 'check_init', 'mt_init_' + t, props='C19', rlimit=30, req=MREQ, iso=True,
      ens=MFR + X(', final(slf).seed is Ok, mtok_T(*final(slf), @N), @N == mtst_T(*old(slf), @O), final(slf).idx == mtx_T(*old(slf))'),
      at={'after mask_T:0'.replace('_T', '_' + t): X('lemma_mask_T(seed, mask_T_0, slf.word_size as int);'), 'before mask_T:1'.replace('_T', '_' + t): ('lq = last', X('lx = (lp ^ (lp >> ((slf.word_size - 2) as TT))) * slf.init_multiplier + i'), ''), 'armend:0': X('assert(@C =~= mtst_T(*old(slf), @C));')},
      loops={0: dict(inv=('ok(h0, slf.state), ' if t == 'u32' else '') + X('h0 == old(h)@, @FRC, mtsame_T(*slf, *old(slf)), slf.seed == old(slf).seed, old(slf).seed is Err, slf.seed->Err_0 == seed, mtp_T(*old(slf)), n0 == slf.state_size - 1, n_1 == slf.state_size, @C.len() == i0 + 1, last == @C[i0 as int], forall|j: int| 0 <= j <= i0 ==> (#[trigger] @C[j]) == mti_T(*old(slf), j)'),
                     ghost=['lp = last'],
                     le=X('lemma_mask_T(lq, mask_T_1, slf.word_size as int); lemma_mtmod_T(lx, slf.word_size as int); assert(mti_T(*old(slf), i0 as int + 1) == (lx % p2(slf.word_size as int)) as TT);'))})
    ST0 = X('@O').replace('O[[', 'h0[[')
    MTI = ('ok(h0, slf.state), ' if t == 'u32' else '') + X('h0 == old(h)@, @FRC, mtp_T(*old(slf)), mtsame_T(*slf, *old(slf)), slf.seed == old(slf).seed, slf.idx == old(slf).idx, s0.len() == slf.state_size, @C.len() == s0.len(), upper_mask == !0TT << slf.mask_bits, lower_mask == !upper_mask, k == slf.state_size - slf.shift_size, ')
    YB = X('assert(((YV & 1) > 0) == (YV & 1 == 1)) by(bit_vector); ')
    STEP = X('assert(@C =~= mtw_T(*old(slf), s0, KI));')
    F(MT + 'gen_rand', 'mt_twist_' + t, props='C19', iso=True, rlimit=30, ghost=[X('s0 = @C')], req=X('@HREQ, mtp_T(*old(slf)), @O.len() == old(slf).state_size').replace('O[[', 'H[['),
      ens=MFR + X(', final(slf).seed == old(slf).seed, final(slf).idx == 0, @N.len() == @O.len(), @N == mtw_T(*old(slf), @O, old(slf).state_size as int)'),
      loops={0: dict(inv=MTI + X('n0 == k, @C == mtw_T(*old(slf), s0, i0 as int)'), ghost=['sb = ' + X('@C')], le=YB.replace('YV', 'y') + STEP.replace('KI', 'i0 + 1')),
             1: dict(inv=MTI + X('n == slf.state_size - 1, n1 == n - k, j == i1, @C == mtw_T(*old(slf), s0, k + i1)'), le=YB.replace('YV', 'y_1') + STEP.replace('KI', 'k + i1 + 1'))},
      at={'ret': YB.replace('YV', 'y_2') + STEP.replace('KI', 'slf.state_size as int')})
    F(MTS + 'gen', 'mt_gen_' + t, props='C19', rlimit=30, req=MREQ, ens=MFR + X(', final(slf).seed is Ok, mtok_T(*final(slf), @N), r is Ok, ({ let (s, i) = mtup_T(*old(slf), @O); r->Ok_0 == mtz_T(*old(slf), s[i]) && @N == s && final(slf).idx == i + 1 })'),
      ghost=[X('s0 = @C')], at={'after mt_init_T:0'.replace('_T', '_' + t): X('lemma_mtw_T(*slf, mtst_T(*old(slf), s0), slf.state_size as int); lemma_mtx_T(*slf, *old(slf), mtst_T(*old(slf), s0), slf.state_size as int);')})
    F(MTS + 'reset', 'mt_reset_' + t, props='C19', req=MREQ, ens=MFR + X(', r is Ok == sd.ok@, mtok_T(*final(slf), @N), r is Err ==> *final(slf) == *old(slf) && @N == @O, r is Ok ==> final(slf).seed is Ok && @N == mtst_T(MersenneTwisterRand_T { seed: Err(sd.v@ as TT), ..*old(slf) }, @O) && final(slf).idx == old(slf).state_size'))

# the exported generator macros: their expansions (specs/macros.rs holds one call of each) build the generator with the published parameters
OWNM = ', r is Ok ==> O.len() <= r->Ok_0.state < H.len(), ex(O, H)'
def mtpar(p): return ' && '.join('g.%s == %s' % (n, v) for n, v in zip('word_size state_size shift_size mask_bits xor_mask tempering_u tempering_d tempering_s tempering_b tempering_t tempering_c shift_l init_multiplier'.split(), p.split()))
for nm, t, p in (('mt19937', 'u32', '32 624 397 31 0x9908b0df 11 0xffffffff 7 0x9d2c5680 15 0xefc60000 18 1812433253'),
                 ('mt19937_64', 'u64', '64 312 156 31 0xb5026f5aa96619e9 29 0x5555555555555555 17 0x71d67fffeda60000 37 0xfff7eee000000000 43 6364136223846793005')):
    F('vp_' + nm, 'mac_' + nm, props='C19', at={'start': 'lemma_mtmod_%s(0, 0);' % t}, ens='r is Ok == sd.ok@, r is Ok ==> { let g = r->Ok_0; %s && g.seed == Result::<%s, %s>::Err(sd.v@ as %s) }' % (mtpar(p), t, t, t) + (OWNM if t == 'u32' else ', H == O'))
for nm, a in (('minstd_rand0', 16807), ('minstd_rand', 48271)):
    F('vp_' + nm, 'mac_' + nm, props='C19', noheap=True, pure=True, ens='r is Ok == sd.ok@, r is Ok ==> r->Ok_0.a == %d && r->Ok_0.c == 0 && r->Ok_0.m == 2147483647 && r->Ok_0.x == sd.v@ as u32' % a)
for nm, t, w, s_, l in (('ranlux24', 'u32', 24, 10, 24), ('ranlux48', 'u64', 48, 5, 12)):
    F('vp_' + nm, 'mac_' + nm, props='C19', ens='r is Ok == sd.ok@, r is Ok ==> r->Ok_0.word_size == %d && r->Ok_0.short_lag == %d && r->Ok_0.long_lag == %d && r->Ok_0.seed == Result::<%s, %s>::Err(sd.v@ as %s)' % (w, s_, l, t, t, t) + (OWNM if t == 'u32' else ', H == O'))
