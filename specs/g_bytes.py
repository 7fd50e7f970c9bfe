# ---- bytes and wide primitive integers
L('byte', '''
/// byte i of x
pub open spec fn byte(x: int, i: int) -> int { (x / p2(8 * i)) % 256 }
pub open spec fn le8(s: Seq<u8>, lo: int, n: int) -> int decreases n { if n <= 0 { 0 } else { le8(s, lo, n - 1) + s[lo + n - 1] * p2(8 * (n - 1)) } }
/// the number a little (big) endian byte string denotes
pub open spec fn lev(s: Seq<u8>) -> int { le8(s, 0, s.len() as int) }
pub open spec fn bev(s: Seq<u8>) -> int { le8(s.reverse(), 0, s.len() as int) }''')
L('lemma_le8_eq', '''
pub proof fn lemma_le8_eq(s: Seq<u8>, a: int, t: Seq<u8>, b: int, n: int) requires forall|k: int| 0 <= k < n ==> #[trigger] s[a + k] == t[b + k] ensures le8(s, a, n) == le8(t, b, n) decreases n
{ if n > 0 { assert(s[a + (n - 1)] == t[b + (n - 1)]); lemma_le8_eq(s, a, t, b, n - 1); } } // byte''')
L('lemma_le8_low', '''
pub proof fn lemma_le8_low(s: Seq<u8>, lo: int, n: int) requires n >= 0 ensures le8(s, lo, n + 1) == s[lo] + 256 * le8(s, lo + 1, n) decreases n
{ lemma_p8(); if n > 0 { lemma_le8_low(s, lo, n - 1); lemma_p2_add(8, 8 * (n - 1)); let x = s[lo + n] as int; let p = p2(8 * (n - 1)); assert(x * (256 * p) == 256 * (x * p)) by(nonlinear_arith); assert(8 + 8 * (n - 1) == 8 * n); }
  else { assert(le8(s, lo, 0) == 0 && le8(s, lo + 1, 0) == 0); assert(p2(8int * 0) == 1); } } // byte''')
L('lemma_p8', '''
pub proof fn lemma_p8() ensures p2(0) == 1, p2(8) == 256, p2(16) == 65536, p2(24) == 16777216, p2(32) == 0x1_0000_0000, p2(64) == 0x1_0000_0000_0000_0000, p2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{ lemma_p2_0(); lemma_p2_add(1, 1); lemma_p2_add(2, 2); lemma_p2_add(4, 4); lemma_p2_add(8, 8); lemma_p2_add(8, 16); lemma_p2_add(64, 64); assert(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int == 0x1_0000_0000_0000_0000_0000_0000_0000_0000int) by(compute_only); }''')
L('lemma_bev_push', '''
pub proof fn lemma_bev_push(s: Seq<u8>, y: u8) ensures bev(s.push(y)) == y + 256 * bev(s)
{ let n = s.len() as int; let t = s.push(y).reverse(); lemma_le8_low(t, 0, n); lemma_le8_eq(t, 1, s.reverse(), 0, n); } // byte''')
L('lemma_lev_push', '''
pub proof fn lemma_lev_push(s: Seq<u8>, y: u8) ensures lev(s.push(y)) == lev(s) + y * p2(8 * s.len() as int)
{ lemma_le8_eq(s.push(y), 0, s, 0, s.len() as int); } // byte''')
L('lemma_byte_next', '''
/// the low i+1 bytes
pub proof fn lemma_byte_next(x: int, i: int) requires x >= 0, i >= 0 ensures x % p2(8 * (i + 1)) == x % p2(8 * i) + byte(x, i) * p2(8 * i)
{ lemma_p8(); lemma_p2_add(8 * i, 8); lemma_p2_pos(8 * i); lemma_mod_breakdown(x, p2(8 * i), 256); let a = p2(8 * i); assert(a * byte(x, i) == byte(x, i) * a) by(nonlinear_arith); } // byte''')
L('lemma_word_byte', '''
/// adding byte i to the word under construction
pub proof fn lemma_word_byte(t: u32, e: u8, i: usize) requires t < p2(8 * (i as int % 4))
  ensures i & 3 == i % 4, ((i & 3) << 3usize) == 8 * (i % 4), (e as u32) << ((8 * (i % 4)) as u32) == e * p2(8 * (i as int % 4)), t | ((e as u32) << ((8 * (i % 4)) as u32)) == t + e * p2(8 * (i as int % 4)), t + e * p2(8 * (i as int % 4)) < p2(8 * (i as int % 4) + 8) <= 0x1_0000_0000, t + e * p2(8 * (i as int % 4)) >= 0, p2(8 * i) == pw(i as int / 4) * p2(8 * (i as int % 4))
{
  let j = (i % 4) as int; assert(i & 3 == i % 4 && ((i & 3) << 3usize) == 8 * (i % 4)) by(bit_vector); lemma_p8(); let P = p2(8 * j); lemma_p2_pos(8 * j); lemma_p2_mono(8 * j, 24); lemma_p2_add(8 * j, 8); lemma_p2_mono(8 * j + 8, 32); let s = (8 * (i % 4)) as u32;
  lemma_shl32(e as u32, s); assert(0 <= e * P <= 255 * P) by(nonlinear_arith) requires 0 <= e <= 255, P >= 1; lemma_small_mod((e * P) as nat, 0x1_0000_0000);
  lemma_shl32(1, s); lemma_small_mod(P as nat, 0x1_0000_0000); let ee = e as u32;
  assert(t | (ee << s) == add(t, ee << s)) by(bit_vector) requires t < (1u32 << s), s < 32; 
  lemma_p2_split(8 * i as int); assert((8 * i as int) / 32 == i as int / 4 && (8 * i as int) % 32 == 8 * j);
}''')
def byteloop(v, tmp, ele, total, heapobj='h0.len()', c0='c0', extra=''):
    return dict(inv='''ex(h0, H), v == h0.len(), H.len() == h0.len() + 1, H[[v]].len() == i0 / 4, TMP < p2(8 * (i0 as int % 4)), rv(H[[v]], 0, H[[v]].len() as int) + TMP * pw(H[[v]].len() as int) == TOT(i0)'''.replace('TMP', tmp).replace('TOT(i0)', total('i0')).replace('[v]', '[%s]' % v).replace(' v ', ' %s ' % v) + extra,
      pre='lemma_p8(); lemma_mul_basics(pw(0));' + (' lemma_mod_self_0(1); ' ), ghost=['c0 = %s' % tmp],
      ls='lemma_word_byte(%s, %s, i0); lemma_p8();' % (tmp, ele),
      le='''let k = i0 as int / 4; let j = i0 as int % 4; let q = pw(k); let P = p2(8 * j); let e = ELE as int; let w = c0 as int + e * P; assert(w * q == c0 * q + e * (q * P)) by(nonlinear_arith) requires w == c0 as int + e * P; lemma_p2_pos(8 * j);
        if j == 3 { lemma_step(H[[V]], 0, k); lemma_rv_eq(H[[V]], 0, hl0[[V]], 0, k); assert(H[[V]][k] == w); assert((i0 + 1) / 4 == k + 1); lemma_mul_basics(pw(k + 1)); } STEP'''.replace('[V]', '[%s]' % v).replace('ELE', ele))
L('lemma_le8_byte', '''
pub proof fn lemma_le8_byte(x: int, s: Seq<u8>, n: int) requires x >= 0, 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == byte(x, i) as u8 ensures le8(s, 0, n) == x % p2(8 * n) decreases n
{ lemma_p8(); if n > 0 { lemma_le8_byte(x, s, n - 1); lemma_byte_next(x, n - 1); assert(s[n - 1] == byte(x, n - 1) as u8); } } // byte''')
def fromprim(t, nby):
    F(N + 'core::convert::From<%s>>::from' % t, 'nat_from_' + t, props='C11 C06', ens='ex(O, H), r >= O.len(), cn(H, r), !na(H, r), nv(H, r) == x',
      at={'ret': 'lemma_p8(); let s = Seq::new(%d, |i: int| byte(x as int, i) as u8); lemma_le8_byte(x as int, s, %d); lemma_small_mod(x as nat, p2(%d) as nat);' % (nby, nby, nby * 8)})
for t, n in (('u64', 8), ('u128', 16), ('usize', 8)): fromprim(t, n)
def fromslice(path, name, param, v, tmp, props, tail, be=False, at={}):
    tot = lambda i: 'le8(%s, 0, %s as int)' % ('%s@.reverse()' % param if be else '%s@' % param, i)
    el = '%s@[%s]' % (param, 'n0 - 1 - i0' if be else 'i0 as int')
    lp = byteloop(v, tmp, el, tot); lp['le'] = lp['le'].replace('STEP', 'assert(%s == %s.reverse()[i0 as int]);' % (el, param + '@') if be else '')
    lp['inv'] += ', n0 == %s@.len()' % param
    F(path, name, props=props, ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == (%s@.len() == 0), nv(H, r) == %s(%s@)' % (param, 'bev' if be else 'lev', param), loops={0: lp}, at=dict({tail: '''let m = ha0[[V]].len() as int; lemma_step(H[[V]], 0, m); lemma_rv_eq(H[[V]], 0, ha0[[V]], 0, m); lemma_mul_basics(pw(m)); lemma_rv_bound(ha0[[V]], 0, m); '''.replace('[V]', '[%s]' % v)}, **at))
fromslice(N + 'core::convert::From<&[u8]>>::from', 'nat_from_bytes', 'x', 'v', 'tmp', 'C11 C06', 'before trim_head_zero_:0')
for g, nm in (('alloc::vec::Vec<u8>', 'bvec'), ('&alloc::vec::Vec<u8>', 'bvecref')):
    F(N + 'core::convert::From<%s>>::from' % g, 'nat_from_' + nm, props='C11', ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == (x@.len() == 0), nv(H, r) == lev(x@)')
fromslice(NAT + 'from_le_bytes', 'nat_from_le', 'data', 'nat_v', 'val', 'C11', 'before trim_head_zero_:0')
fromslice(NAT + 'from_be_bytes', 'nat_from_be', 'data', 'nat_v', 'val', 'C11', 'before trim_head_zero_:0', be=True)

TOLE = '(na(H, slf) ==> {0}.len() == 0), !na(H, slf) ==> {0}.len() >= 1 && lev({0}) == nv(H, slf) && ({0}.len() == 1 || {0}[{0}.len() - 1] != 0)'
TOBE = '(na(H, slf) ==> {0}.len() == 0), !na(H, slf) ==> {0}.len() >= 1 && bev({0}) == nv(H, slf) && ({0}.len() == 1 || {0}[0] != 0)'
L('lemma_top_byte', '''
/// the top byte of a k byte number
pub proof fn lemma_top_byte(x: u32, k: int) requires 1 <= k <= 4, x < p2(8 * k), k > 1 ==> x >= p2(8 * (k - 1)) ensures x > 0 ==> byte(x as int, k - 1) != 0, x as int % p2(8 * k) == x, x as int / p2(8 * k) == 0
{ lemma_p8(); let a = p2(8 * (k - 1)); lemma_p2_pos(8 * (k - 1)); lemma_p2_add(8 * (k - 1), 8); let q = x as int / a; lemma_fundamental_div_mod(x as int, a); lemma_mod_bound(x as int, a);
  assert(q < 256) by(nonlinear_arith) requires x as int == a * q + x as int % a, x < a * 256, x as int % a >= 0, a >= 1; lemma_div_pos_is_pos(x as int, a); lemma_basic_div(x as int, p2(8 * k)); lemma_small_mod(x as nat, p2(8 * k) as nat);
  if k == 1 { assert(x as int / 1 == x); } else { if q == 0 { assert(a * 0 == 0); } } } // byte''')
L('lemma_div_byte', '''
pub proof fn lemma_div_byte(x: int, m: int) requires x >= 0, m >= 1 ensures x / p2(8 * (m - 1)) == byte(x, m - 1) + 256 * (x / p2(8 * m))
{ lemma_p8(); lemma_p2_pos(8 * (m - 1)); lemma_p2_add(8 * (m - 1), 8); lemma_div_denominator(x, p2(8 * (m - 1)), 256); } // byte''')
_lp = 'let q = pw(%(w)s); let P = p2(8 * %(i)s); lemma_byte_next(%(x)s as int, %(i)s as int); lemma_lev_push(d0, byte(%(x)s as int, %(i)s as int) as u8); lemma_p2_split(8 * (4 * (%(w)s) + %(i)s)); assert((8 * (4 * (%(w)s) + %(i)s)) / 32 == %(w)s && (8 * (4 * (%(w)s) + %(i)s)) %% 32 == 8 * %(i)s); let y = byte(%(x)s as int, %(i)s as int); let v = %(x)s as int %% P; assert((v + y * P) * q == v * q + y * (q * P)) by(nonlinear_arith);'
F(NAT + 'copy_to_le', 'copy_to_le', props='C11', pure=True, req='cn(H, slf)', ens=TOLE.format('final(dst)@'),
  loops={0: dict(inv='n0 == H[[slf]].len() - 1, dst@.len() == 4 * i0, lev(dst@) == rv(H[[slf]], 0, i0 as int)', le='lemma_p8(); lemma_step(H[[slf]], 0, i0 as int); lemma_small_mod(x as nat, 0x1_0000_0000);'),
         1: dict(inv='dst@.len() == 4 * i0 + i1, lev(dst@) == rv(H[[slf]], 0, i0 as int) + (x as int % p2(8 * i1)) * pw(i0 as int)', ghost=['d0 = dst@'], pre='lemma_p8(); lemma_mul_basics(pw(i0 as int));', le=_lp % dict(x='x', i='i1', w='i0 as int')),
         2: dict(inv='n2 == i, dst@.len() == 4 * n0 + i2, lev(dst@) == rv(H[[slf]], 0, n0 as int) + (x_1 as int % p2(8 * i2)) * pw(n0 as int), i2 > 0 ==> dst@[dst@.len() - 1] == byte(x_1 as int, i2 - 1)', ghost=['d0 = dst@'], pre='lemma_p8(); lemma_mul_basics(pw(n0 as int));', le=_lp % dict(x='x_1', i='i2', w='n0 as int'),
                 post='lemma_p8(); lemma_top_byte(x_1, i as int); lemma_step(H[[slf]], 0, n0 as int);')})
F(NAT + 'to_le_bytes', 'to_le_bytes', props='C11', pure=True, req='cn(H, slf)', ens=TOLE.format('r@'))
F(NAT + 'copy_to_be', 'copy_to_be', props='C11', pure=True, ghost=['mut k: int = 0', 'mut X: int = 0'], req='cn(H, slf)', ens=TOBE.format('final(dst)@'),
  loops={0: dict(inv='n0 == 4 - i, dst@.len() == i0, bev(dst@) == x as int / p2(8 * (n0 - i0)), i0 > 0 ==> dst@[0] == byte(x as int, n0 - 1)', ghost=['d0 = dst@'], pre='k = n0 as int; X = x as int; lemma_p8(); lemma_top_byte(x, n0 as int);', le='lemma_div_byte(x as int, n0 - i0); lemma_bev_push(d0, byte(x as int, n0 - i0 - 1) as u8);',
                 post='lemma_p8(); lemma_rv_low(H[[slf]], H[[slf]].len() - 1, 0); assert(rv(H[[slf]], H[[slf]].len() as int, 0) == 0); assert(x as int / 1 == x);'),
         1: dict(inv='n1 == H[[slf]].len() - 1, dst@.len() == k + 4 * i1, bev(dst@) == rv(H[[slf]], n1 - i1, 1 + i1), 1 <= k <= 4, dst@[0] == byte(X, k - 1)', le='lemma_p8(); lemma_rv_low(H[[slf]], n1 - i1 - 1, 1 + i1); assert(x_1 as int / 1 == x_1); assert(bev(dst@) == rv(H[[slf]], n1 - i1, 1 + i1) * 0x1_0000_0000 + x_1); assert(n1 - i1 - 1 + 1 == n1 - i1); assert(x_1 == H[[slf]][n1 - i1 - 1]);'),
         2: dict(inv='dst@.len() == k + 4 * i1 + i2, bev(dst@) == rv(H[[slf]], n1 - i1, 1 + i1) * p2(8 * i2) + x_1 as int / p2(8 * (4 - i2)), 1 <= k <= 4, dst@[0] == byte(X, k - 1)', ghost=['d0 = dst@'], pre='lemma_p8(); lemma_basic_div(x_1 as int, 0x1_0000_0000); let r = rv(H[[slf]], n1 - i1, 1 + i1); assert(r * 1 == r);', post='assert(8 * (4 - i2) == 0); assert(8 * i2 == 32);',
                 le='lemma_p8(); lemma_div_byte(x_1 as int, 4 - i2); lemma_bev_push(d0, byte(x_1 as int, 3 - i2) as u8); lemma_p2_add(8 * i2 as int, 8); let r = rv(H[[slf]], n1 - i1, 1 + i1); let P = p2(8 * i2); assert(256 * (r * P) == r * (P * 256)) by(nonlinear_arith);')})
F(NAT + 'to_be_bytes', 'to_be_bytes', props='C11', pure=True, req='cn(H, slf)', ens=TOBE.format('r@'))
for e, E_ in (('le', TOLE), ('be', TOBE)):
    t = E_.replace('(H, slf)', '(H, slf.nat)')
    F(BI + 'copy_to_' + e, 'bi_copy_to_' + e, props='C11', pure=True, req='cb(H, slf)', ens=t.format('final(dst)@'))
    F(BI + 'to_%s_bytes' % e, 'bi_to_%s_bytes' % e, props='C11', pure=True, req='cb(H, slf)', ens=t.format('r@'))
    F(BI + 'from_%s_bytes' % e, 'bi_from_%s_bytes' % e, props='C11', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == (data@.len() == 0), bv(H, r) == %sv(data@), r.sign == BISign::Natural' % e)
for g, nm in (('alloc::vec::Vec<u8>', 'bvec'), ('&alloc::vec::Vec<u8>', 'bvecref'), ('&[u8]', 'bytes')):
    F(Z + 'core::convert::From<%s>>::from' % g, 'bi_from_' + nm, props='C11', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == (x@.len() == 0), bv(H, r) == lev(x@)')
for g, nm in (('alloc::vec::Vec<u32>', 'vec'), ('&alloc::vec::Vec<u32>', 'vecref')):
    F(Z + 'core::convert::From<%s>>::from' % g, 'bi_from_' + nm, props='C11', req='ok(H, x)', ens='%s, own(O, r.nat, x), cb(H, r), bv(H, r) == nv(O, x), nb(H, r) == na(O, x)' % ('fr(O, H, x)' if nm == 'vec' else 'ex(O, H)'))
F(Z + 'core::convert::From<&[u32]>>::from', 'bi_from_slice', props='C11', req='ok(H, x.c), x.lo <= x.hi <= H[[x.c]].len()', ens='ex(O, H), r.nat >= O.len(), cb(H, r), bv(H, r) == rv(O[[x.c]], x.lo as int, x.hi - x.lo), nb(H, r) == (x.lo == x.hi)')
