# ---- random numbers below a bound; rng is an arbitrary sequence of results
L('allok', '''
pub open spec fn allok(s: spec_fn(int) -> Result<u32, Err>, p: int, k: int) -> bool { forall|i: int| p <= i < p + k ==> (#[trigger] s(i)) is Ok }
pub open spec fn dr(s: spec_fn(int) -> Result<u32, Err>, p: int, k: int) -> Seq<u32> { Seq::new(k as nat, |i: int| s(p + i)->Ok_0) }
/// the first k draws of s from p are the words of a number below B
pub open spec fn hit(s: spec_fn(int) -> Result<u32, Err>, p: int, k: int, B: int) -> bool { allok(s, p, k) && val(dr(s, p, k)) < B }
pub proof fn lemma_mask(x: u32, b: int) requires 1 <= b <= 32 ensures ({ let m = if b == 32 { 0xffff_ffffu32 } else { ((1u32 << (b as u32)) - 1) as u32 }; (x & m) < p2(b) && (x < p2(b) ==> (x & m) == x) })
{ lemma_p2_0(); if b == 32 { assert(x & 0xffff_ffffu32 == x) by(bit_vector); } else { let s = b as u32; lemma_shl32(1u32, s); lemma_p2_lt(b, 32); lemma_small_mod(p2(b) as nat, 0x1_0000_0000); let t = 1u32 << s; assert(t == p2(b)); lemma_p2_pos(b); let m = (t - 1) as u32; assert((x & m) <= m && (x <= m ==> (x & m) == x)) by(bit_vector) requires m == sub(1u32 << s, 1), s < 32; } }
/// a number below one of k words with top word w: its top word is at most w
pub proof fn lemma_topword(a: Seq<u32>, b: Seq<u32>) requires a.len() == b.len(), b.len() > 0, val(a) < val(b) ensures a[a.len() - 1] <= b[b.len() - 1]
{ let k = a.len() - 1; lemma_step(a, 0, k); lemma_step(b, 0, k); lemma_rv_bound(a, 0, k); lemma_rv_bound(b, 0, k); let x = a[k] as int; let y = b[k] as int; let q = pw(k); if x > y { assert(x * q >= y * q + q) by(nonlinear_arith) requires x >= y + 1, q >= 0; } }
''')
_RI = 'rng.src@ == old(rng).src@, '
F(NAT + 'random_inner', 'random_inner', props='C20 C21 C06 C08', nodec=True,
  req='cn(H, slf), !na(H, slf), nv(H, slf) > 0, ok(H, n), n != slf',
  ens='fr(O, H, n), H.len() == O.len(), cn(H, n), !na(H, n), nv(H, n) < nv(O, slf), final(rng).src@ == old(rng).src@, hit(old(rng).src@, old(rng).pos@, O[[slf]].len() as int, nv(O, slf)) ==> nv(H, n) == val(dr(old(rng).src@, old(rng).pos@, O[[slf]].len() as int))',
  ghost=['k = h@[slf as int].len() as int', 's = rng.src@', 'p0 = rng.pos@', 'G = hit(rng.src@, rng.pos@, h@[slf as int].len() as int, nv(h@, slf))', 'D = dr(rng.src@, rng.pos@, h@[slf as int].len() as int)'],
  loops={0: dict(invx='fr(h0, H, n), H.len() == h0.len(), rng.src@ == s, G ==> t3_err is None && rng.pos@ == p0', ens='fr(h0, H, n), H.len() == h0.len(), rng.src@ == s, cn(H, n), !na(H, n), nv(H, n) < nv(h0, slf), G ==> nv(H, n) == val(D)'),
     1: dict(inv='fr(h0, H, n), H.len() == h0.len(), rng.src@ == s, H[[n]].len() <= k, num == k, G ==> t3_err is None && rng.pos@ == p0 + H[[n]].len() && H[[n]] == D.take(H[[n]].len() as int)', ls='',
       le='assert(G ==> H[[n]] =~= D.take(H[[n]].len() as int));', post='assert(G ==> H[[n]] =~= D);')},
  at={'start': 'lemma_one_shl();', 'after bits_len:0': 'lemma_sh5(bits_len_0);',
     'before trim_head_zero:0': ('hm = h@', 'let b = if rem == 0 { 32int } else { rem as int }; assert(H[[n]].len() == k); if G { let kk = k - 1; lemma_step(h0[[slf]], 0, kk); lemma_rv_bound(h0[[slf]], 0, kk); lemma_p2_add(32 * kk, b); lemma_p2_pw(kk); let X = h0[[slf]][kk] as int; let q = pw(kk); let B = p2(b); lemma_pw_pos(kk); assert(bits_len_v == 32 * kk + b); assert(X < B) by(nonlinear_arith) requires X * q < q * B, q >= 1; lemma_topword(D, h0[[slf]]); lemma_mask(D[k - 1], b); assert(D[k - 1] < p2(b)); assert(H[[n]] =~= D); }'),
  })
L('reach', '''
/// every number below one of k words is the value of some k words (so of some k draws)
pub proof fn lemma_words(v: int, k: int) -> (s: Seq<u32>) requires k >= 0, 0 <= v < pw(k) ensures s.len() == k, val(s) == v decreases k
{ if k == 0 { Seq::empty() } else { let q = pw(k - 1); lemma_pw_pos(k - 1); let t = v / q; let u = v % q; lemma_fundamental_div_mod(v, q); lemma_mod_bound(v, q); assert(0 <= t < 0x1_0000_0000) by(nonlinear_arith) requires v == q * t + u, 0 <= u < q, 0 <= v < 0x1_0000_0000 * q, q >= 1; let a = lemma_words(u, k - 1); let s = a.push(t as u32); lemma_step(s, 0, k - 1); lemma_rv_eq(s, 0, a, 0, k - 1); assert(t * q == q * t) by(nonlinear_arith); s } }
pub open spec fn hasw(k: int, v: int) -> bool { exists|s: Seq<u32>| s.len() == k && #[trigger] val(s) == v }
pub open spec fn reach(k: int, B: int) -> bool { forall|v: int| 0 <= v < B ==> #[trigger] hasw(k, v) }
pub proof fn lemma_reach(b: Seq<u32>) ensures reach(b.len() as int, val(b))
{ assert forall|v: int| 0 <= v < val(b) implies #[trigger] hasw(b.len() as int, v) by { lemma_rv_bound(b, 0, b.len() as int); let s = lemma_words(v, b.len() as int); assert(val(s) == v); } }
''')
_RT = 'O[[X]].len() as int'
def _rr(x): return 'hit(old(rng).src@, old(rng).pos@, O[[{0}]].len() as int, nv(O, {0})) ==> nv(H, {1}) == val(dr(old(rng).src@, old(rng).pos@, O[[{0}]].len() as int))'.format(x, 'r' if x == 'slf' else 'r.nat')
F(NAT + 'random', 'random', props='C20 C06 C07 C08', req='cn(H, slf)',
  ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == (na(O, slf) || nv(O, slf) == 0), final(rng).src@ == old(rng).src@, !na(H, r) ==> 0 <= nv(H, r) < nv(O, slf) && (%s)' % _rr('slf') + ', !na(O, slf) ==> reach(O[[slf]].len() as int, nv(O, slf))',
  at={'start': 'lemma_nv_nonneg(O, slf); lemma_reach(O[[slf]]);', 'ret': 'lemma_nv_nonneg(H, RES);'})
F(BI + 'random', 'bi_random', props='C20 C06 C07 C08', req='cb(H, slf)',
  ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == (nb(O, slf) || bv(O, slf) == 0), final(rng).src@ == old(rng).src@, !nb(H, r) && bv(O, slf) > 0 ==> 0 <= bv(H, r) < bv(O, slf), !nb(H, r) && bv(O, slf) < 0 ==> bv(O, slf) < bv(H, r) <= 0, !nb(H, r) ==> (%s)' % _rr('slf.nat'),
  at={'start': 'lemma_nv_nonneg(O, slf.nat);', 'ret': 'lemma_nv_nonneg(H, RES.nat);'})
