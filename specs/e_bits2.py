_top = '''let n = h0[[slf]].len() as int; lemma_p2_0(); if n > 0 { let x = h0[[slf]][n - 1] as int; lemma_step(h0[[slf]], 0, n - 1); lemma_rv_bound(h0[[slf]], 0, n - 1); if x == 0 { lemma_val1(h0[[slf]]); lemma_blen(0, 1); } else {
   let b = RES - 32 * (n - 1); lemma_p2_pw(n - 1); lemma_p2_add(32 * (n - 1), b); lemma_p2_add(32 * (n - 1), b - 1); let q = pw(n - 1); let a = p2(b); let c = p2(b - 1); assert(x * q >= q * c) by(nonlinear_arith) requires x >= c, q >= 1; assert((x + 1) * q <= q * a) by(nonlinear_arith) requires x + 1 <= a, q >= 1; lemma_pw_pos(n - 1); lemma_dist2(x, 1, q); lemma_blen(nv(h0, slf), RES as int); } }'''
F(NAT + 'bits_len', 'bits_len', props='C22', pure=True, req='cn(H, slf)', ens='r == (if na(H, slf) { 0 } else { blen(nv(H, slf)) }), r <= 32 * H[[slf]].len(), r <= 32 * MAXV, !na(H, slf) ==> r >= 1 && (r - 1) / 32 == H[[slf]].len() - 1, nv(H, slf) > 0 ==> p2(r - 1) <= nv(H, slf) < p2(r as int)',
  at={'start': 'assert(forall|x: usize| x <= 0x1_0000_0000 ==> #[trigger] (x << 5usize) == x * 32) by(bit_vector);',
      'ret': _top.replace('h0[[', 'H[[').replace('nv(h0', 'nv(H')})
_setbit = 'lemma_sh5(IDX); let k = IDX as int / 32; let x = H[[slf]][k]; let j = (IDX % 32) as u32; lemma_vbit(H[[slf]], IDX as int); lemma_wbit(x, j); assert(((x & (1u32 << j)) != 0) == ((x >> j) & 1 == 1)) by(bit_vector) requires j < 32;'
F(NAT + 'is_set_bit_', 'is_set_bit_', props='C22', pure=True, req='cn(H, slf), idx / 32 < H[[slf]].len()', ens='r == bit(nv(H, slf), idx as int)',
  at={'start': _setbit.replace('IDX', 'idx')})
F(NAT + 'is_set_bit', 'is_set_bit', props='C22 C07', pure=True, req='cn(H, slf)', ens='r == (if na(H, slf) || bit_idx >= blen(nv(H, slf)) { None } else { Some(bit(nv(H, slf), bit_idx as int)) })')
F(NAT + 'trailling_zeros', 'trailling_zeros', props='C22', pure=True, req='cn(H, slf)', ens='r <= 32 * H[[slf]].len(), nv(H, slf) != 0 ==> nv(H, slf) % p2(r as int) == 0 && (nv(H, slf) / p2(r as int)) % 2 == 1 && nv(H, slf) / p2(r as int) >= 1',
  loops={0: dict(inv='', invx='cnt == 32 * i0, forall|k: int| 0 <= k < i0 ==> H[[slf]][k] == 0', ens='i0 <= n0, forall|k: int| 0 <= k < i0 ==> H[[slf]][k] == 0, i0 == n0 && cnt == 32 * n0 || i0 < n0 && H[[slf]][i0 as int] != 0 && 32 * i0 <= cnt < 32 * i0 + 32 && H[[slf]][i0 as int] as int % p2(cnt - 32 * i0) == 0 && (H[[slf]][i0 as int] as int / p2(cnt - 32 * i0)) % 2 == 1')},
  at={'ret': '''let s = H[[slf]]; let n = s.len() as int; let k = i0 as int; let j = cnt - 32 * i0; if k == n { lemma_rv_zero(s, 0, n); } else { lemma_vbit(s, cnt as int); lemma_p2_split(cnt as int); assert(cnt / 32 == k && cnt % 32 == j); lemma_rv_split(s, 0, k, n - k); lemma_rv_zero(s, 0, k); lemma_p2_pos(cnt as int); lemma_p2_pos(j); lemma_p2_0();
        let P = p2(j); let q = pw(k); lemma_pw_pos(k); lemma_rv_split(s, k, 1, n - k - 1); lemma_step(s, k, 0); let y = rv(s, k + 1, n - k - 1); assert(pw(1) == 0x1_0000_0000 * pw(0)); let x = s[k] as int; assert(rv(s, k, 1) == x) by { assert(x * 1 == x); } lemma_p2_add(j, 32 - j); let Q = p2(32 - j); let c = x / P; lemma_fundamental_div_mod(x, P);
        assert(q * (x + 0x1_0000_0000 * y) == (c + Q * y) * (q * P) + 0) by(nonlinear_arith) requires x == P * c, P * Q == 0x1_0000_0000; lemma_fundamental_div_mod_converse(nv(H, slf), p2(cnt as int), c + Q * y, 0); lemma_rv_bound(s, k + 1, n - k - 1); lemma_p2_pos(32 - j); lemma_div_pos_is_pos(x, P); assert(Q * y >= 0) by(nonlinear_arith) requires Q >= 1, y >= 0; } '''})
F(NAT + 'not_inner', 'not_inner', props='C05 C06', req='cn(H, slf), !na(H, slf)', ens='ex(O, H), r >= O.len(), cn(H, r), !na(H, r), nv(H, r) == p2(blen(nv(O, slf))) - 1 - nv(O, slf)',
  loops={0: dict(inv='ex(h0, H), v == h0.len(), H.len() == h0.len() + 1, H[[v]].len() == i0, H[[slf]] == h0[[slf]], forall|k: int| 0 <= k < i0 ==> H[[v]][k] == !h0[[slf]][k], rv(H[[v]], 0, i0 as int) == pw(i0 as int) - 1 - rv(h0[[slf]], 0, i0 as int)',
           le='''let n = i0 as int; let x = h0[[slf]][n]; lemma_step(H[[v]], 0, n); lemma_step(h0[[slf]], 0, n); assert(!x == 0xffff_ffff - x) by(bit_vector); let q = pw(n); let xi = x as int; assert((0xffff_ffff - xi) * q == 0x1_0000_0000 * q - q - xi * q) by(nonlinear_arith);''')},
  at={'start': 'lemma_one_shl();', 'after bits_len:0': 'lemma_sh5(bits_len_0);', 'before trim_head_zero_:0': '''let n = h0[[slf]].len() as int; let x = h0[[slf]][n - 1]; let B = bits_len_0 as int; let b = B - 32 * (n - 1); lemma_p2_0(); lemma_sh5(bits_len_0); lemma_step(h0[[slf]], 0, n - 1); lemma_rv_bound(h0[[slf]], 0, n - 1); lemma_p2_pw(n - 1); lemma_p2_add(32 * (n - 1), b);
        let q = pw(n - 1); let P = p2(b); lemma_pw_pos(n - 1); lemma_p2_pos(b);
        if nv(h0, slf) == 0 { if n > 1 { lemma_top(h0[[slf]]); } lemma_val1(h0[[slf]]); }
        assert(x < P) by { if x >= P { let xi = x as int; assert(xi * q >= q * P) by(nonlinear_arith) requires xi >= P, q >= 1; } }
        lemma_step(H[[v]], 0, n - 1); lemma_rv_eq(H[[v]], 0, ha0[[v]], 0, n - 1); lemma_step(ha0[[v]], 0, n - 1); let y = H[[v]][n - 1];
        assert(!x == 0xffff_ffff - x) by(bit_vector);
        assert(y == P - 1 - x) by { if b < 32 { let bb = b as u32; lemma_shl32(1, bb); lemma_p2_mono(b, 31); lemma_small_mod(P as nat, 0x1_0000_0000); assert(!x & (((1u32 << bb) - 1) as u32) == (1u32 << bb) - 1 - x) by(bit_vector) requires x < (1u32 << bb), bb < 32; } else { assert(b == 32); } }
        let xi = x as int; assert((0xffff_ffff - xi) * q == 0x1_0000_0000 * q - q - xi * q) by(nonlinear_arith); assert((P - 1 - xi) * q == q * P - q - xi * q) by(nonlinear_arith);''',
      })

F(N + 'core::ops::bit::Not>::not', 'nat_not', props='C05 C06 C07 C08', req='cn(H, slf)', ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == na(O, slf), !na(O, slf) ==> nv(H, r) == p2(blen(nv(O, slf))) - 1 - nv(O, slf)')
# ---- BigInt bitwise: infinite two's complement
F(Z + 'core::ops::bit::Not>::not', 'bi_not', props='C05 C06 C07 C08', req='cb(H, slf)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == nb(O, slf), !nb(O, slf) ==> bv(H, r) == -bv(O, slf) - 1 && (forall|i: int| i >= 0 ==> #[trigger] bit(bv(H, r), i) == !bit(bv(O, slf), i))',
  at={'ret': 'lemma_nv_nonneg(O, slf.nat); if !nb(O, slf) { lemma_bit_neg_all(bv(O, slf)); }'})
_pre = 'lemma_nv_nonneg(O, old(slf).nat); lemma_nv_nonneg(O, rhs.nat); let x = nv(O, old(slf).nat); let y = nv(O, rhs.nat); lemma_bit_neg_all(x - 1); lemma_bit_neg_all(y - 1); lemma_nv_nonneg(H, slf.nat); lemma_bit_neg_all(nv(H, slf.nat) - 1); assert(-(x - 1) - 1 == -x && -(y - 1) - 1 == -y && -(nv(H, slf.nat) - 1) - 1 == -nv(H, slf.nat));'
for tr, m, nm in (('BitAnd', 'bitand', 'and'), ('BitOr', 'bitor', 'or'), ('BitXor', 'bitxor', 'xor')):
    biop(tr, m, m + '_inner', bpost(nm, 'bv'), 'C05', mod='bit', extra=dict(at={'ret': _pre}))
_andn = 'fr(O, H, old(slf).nat), own(O, final(slf).nat, old(slf).nat), cb(H, *final(slf)), nb(H, *final(slf)) == (nb(O, *old(slf)) || nb(O, rhs)), !nb(H, *final(slf)) ==> ' + sub(bpost('andn', 'bv'), '*final(slf)', 'bv(O, *old(slf))', 'bv(O, rhs)')
F(BI + 'and_not_assign', 'bi_and_not_assign', props='C05 C06 C07 C08', req='cb(H, *old(slf)), cb(H, rhs)', ens=_andn, at={'ret': _pre})
F(BI + 'and_not', 'bi_and_not', props='C05 C06 C07 C08', req='cb(H, slf), cb(H, rhs)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == (nb(O, slf) || nb(O, rhs)), !nb(H, r) ==> ' + sub(bpost('andn', 'bv'), 'r', 'bv(O, slf)', 'bv(O, rhs)'))
F(BI + 'bits_len', 'bi_bits_len', props='C22', pure=True, req='cb(H, slf)', ens='r == (if nb(H, slf) { 0 } else { blen(nv(H, slf.nat)) })')
F(BI + 'is_set_bit', 'bi_is_set_bit', props='C22 C07', req='cb(H, slf)', ens='ex(O, H), r == (if nb(O, slf) || i >= blen(nv(O, slf.nat)) { None } else { Some(bit(bv(O, slf), i as int)) })',
  at={'ret': 'lemma_nv_nonneg(O, slf.nat); let x = nv(O, slf.nat); lemma_bit_neg(x - 1, i as int); assert(-(x - 1) - 1 == -x); if slf.sign == BISign::Negative && x >= 1 { lemma_blen_le(x - 1); }'})
L('lemma_blen_le', """
pub proof fn lemma_blen_le(v: int) requires v >= 0 ensures forall|i: int| i >= blen(v) ==> !#[trigger] bit(v, i)
{ assert forall|i: int| i >= blen(v) implies !#[trigger] bit(v, i) by { lemma_p2_0(); if v >= 1 { lemma_blen_ge(v); } lemma_p2_mono(blen(v), i); lemma_basic_div(v, p2(i)); } }""")
