# Parsing: from_*_str, check_base, FromStr of Nat and BigInt
L('lemma_parse_defs', '''
/// value of a digit character; 99 for a character which is no digit in any base
pub open spec fn dv(c: char) -> int { let x = c as int; if 0x30 <= x <= 0x39 { x - 0x30 } else if 0x41 <= x <= 0x46 { x - 0x37 } else if 0x61 <= x <= 0x66 { x - 0x57 } else { 99 } }
pub open spec fn digs(s: Seq<char>, b: int) -> bool { forall|j: int| 0 <= j < s.len() ==> dv(#[trigger] s[j]) < b }
/// value of a digit string, most significant digit first
pub open spec fn dval(s: Seq<char>, b: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { b * dval(s.drop_last(), b) + dv(s.last()) } }
/// value of the last m digits
pub open spec fn sfv(s: Seq<char>, b: int, m: int) -> int decreases m { if m <= 0 { 0 } else { sfv(s, b, m - 1) + dv(s[s.len() - m]) * ip(b, m - 1) } }
pub proof fn lemma_sfv_push(s: Seq<char>, b: int, m: int) requires 0 <= m < s.len() ensures sfv(s, b, m + 1) == dv(s.last()) + b * sfv(s.drop_last(), b, m) decreases m
{ let t = s.drop_last(); lemma_ip1(b); assert(s[s.len() - 1] == s.last()); if m > 0 { lemma_sfv_push(s, b, m - 1); assert(s[s.len() - (m + 1)] == t[t.len() - m]); let d = dv(t[t.len() - m]); let x = sfv(t, b, m - 1); let y = ip(b, m - 1); assert(ip(b, m) == b * y); assert(sfv(t, b, m) == x + d * y); assert(sfv(s, b, m + 1) == sfv(s, b, m) + d * (b * y)); assert(sfv(s, b, m) == dv(s.last()) + b * x);
   assert(b * (x + d * y) == b * x + d * (b * y)) by(nonlinear_arith); } else { assert(sfv(s, b, 0) == 0); assert(sfv(s, b, 1) == sfv(s, b, 0) + dv(s[s.len() - 1]) * ip(b, 0)); lemma_mul_basics(dv(s.last())); lemma_mul_basics(b); assert(sfv(t, b, 0) == 0); } }
pub proof fn lemma_sfv_all(s: Seq<char>, b: int) ensures sfv(s, b, s.len() as int) == dval(s, b) decreases s.len()
{ if s.len() > 0 { lemma_sfv_all(s.drop_last(), b); lemma_sfv_push(s, b, s.len() - 1); } }
pub proof fn lemma_ip_p2(w: int, m: int) requires w >= 0, m >= 0 ensures ip(p2(w), m) == p2(w * m) decreases m
{ lemma_p2_0(); if m > 0 { lemma_ip_p2(w, m - 1); assert(w * m == w + w * (m - 1)) by(nonlinear_arith); assert(w * (m - 1) >= 0) by(nonlinear_arith) requires w >= 0, m >= 1; lemma_p2_add(w, w * (m - 1)); } else { assert(w * 0 == 0); } }
pub proof fn lemma_dval_front(s: Seq<char>, b: int) requires s.len() > 0, dv(s[0]) == 0 ensures dval(s, b) == dval(s.skip(1), b) decreases s.len()
{ if s.len() > 1 { lemma_dval_front(s.drop_last(), b); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(s.skip(1).last() == s.last()); assert(s.drop_last()[0] == s[0]); } else { assert(s.drop_last().len() == 0); assert(s.last() == s[0]); assert(dval(s.drop_last(), b) == 0); lemma_mul_basics(b); assert(s.skip(1).len() == 0); } }
pub proof fn lemma_ctrim0(s: Seq<char>, b: int) requires b >= 1 ensures dval(ctrim(s, '0'), b) == dval(s, b), digs(ctrim(s, '0'), b) == digs(s, b), ctrim(s, '0').len() <= s.len() decreases s.len()
{ if s.len() > 0 && s[0] == '0' { lemma_ctrim0(s.skip(1), b); lemma_dval_front(s, b); let t = s.skip(1); assert(digs(s, b) == digs(t, b)) by { if digs(t, b) { assert forall|j: int| 0 <= j < s.len() implies dv(#[trigger] s[j]) < b by { if j > 0 { assert(t[j - 1] == s[j]); } } } if digs(s, b) { assert forall|j: int| 0 <= j < t.len() implies dv(#[trigger] t[j]) < b by { assert(s[j + 1] == t[j]); } } } } }
/// a digit of w bits at bit i of the word under construction
pub proof fn lemma_digit(t: u32, e: u32, i: int, w: int) requires 0 <= i < 32, w >= 0, t < p2(i), e < p2(w), i + w <= 32
  ensures e << (i as u32) == e * p2(i), 0 <= t + e * p2(i) < p2(i + w) <= 0x1_0000_0000, e * p2(i) >= 0
{ let P = p2(i); lemma_p2_pos(i); lemma_p2_add(i, w); lemma_p2_mono(i + w, 32); lemma_p2_0(); lemma_shl32(e, i as u32); let q = p2(w); assert(0 <= e * P && e * P + P <= P * q) by(nonlinear_arith) requires 0 <= e <= q - 1, P >= 1;
  lemma_small_mod((e * P) as nat, 0x1_0000_0000); }
pub proof fn lemma_digits(t: u32, i: int, w: int) requires 0 <= i < 32, w >= 0, t < p2(i), i + w <= 32
  ensures forall|e: u32, s: u32| #![trigger (e << s)] s == i && e < p2(w) ==> e << s == e * p2(i) && 0 <= t + e * p2(i) < p2(i + w) <= 0x1_0000_0000 && e * p2(i) >= 0
{ assert forall|e: u32, s: u32| #![trigger (e << s)] s == i && e < p2(w) implies e << s == e * p2(i) && 0 <= t + e * p2(i) < p2(i + w) <= 0x1_0000_0000 && e * p2(i) >= 0 by { lemma_digit(t, e, i, w); } }
pub proof fn lemma_p2_small() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(32) == 0x1_0000_0000 { lemma_p2_0(); lemma_p2_1(0); lemma_p2_1(1); lemma_p2_1(2); lemma_p2_1(3); }
/// the parts of an octal digit which straddles two words
pub proof fn lemma_oct(n: u32, c: u32) requires 1 <= c <= 3, n < 8 ensures (1u32 << c) == p2(c as int), 1u32 << c >= 1, (((1u32 << c) - 1) as u32 & n) == n as int % p2(c as int), n >> c == n as int / p2(c as int), n as int / p2(c as int) < p2(3 - c), n as int % p2(c as int) < p2(c as int)
{ lemma_p2_small(); assert(1u32 << 1 == 2 && 1u32 << 2 == 4 && 1u32 << 3 == 8) by(bit_vector); assert((1 & n) == n % 2 && (3 & n) == n % 4 && (7 & n) == n % 8 && n >> 1 == n / 2 && n >> 2 == n / 4 && n >> 3 == n / 8) by(bit_vector); }
/// chars that may stand before the digits
pub open spec fn skc(c: char) -> bool { c == '+' || c == ' ' }
pub open spec fn npre(s: Seq<char>) -> int decreases s.len() { if s.len() > 0 && skc(s[0]) { 1 + npre(s.skip(1)) } else { 0 } }
pub proof fn lemma_npre(s: Seq<char>, k: int) requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> skc(#[trigger] s[j]), k == s.len() || !skc(s[k]) ensures npre(s) == k decreases s.len()
{ if k > 0 { assert(skc(s[0])); let t = s.skip(1); assert forall|j: int| 0 <= j < k - 1 implies skc(#[trigger] t[j]) by { assert(skc(s[j + 1])); } lemma_npre(t, k - 1); } }
pub proof fn lemma_npre_all(s: Seq<char>) ensures 0 <= npre(s) <= s.len(), forall|j: int| 0 <= j < npre(s) ==> skc(#[trigger] s[j]), npre(s) < s.len() ==> !skc(s[npre(s)]) decreases s.len()
{ if s.len() > 0 && skc(s[0]) { let t = s.skip(1); lemma_npre_all(t); assert forall|j: int| 0 <= j < npre(s) implies skc(#[trigger] s[j]) by { if j > 0 { assert(t[j - 1] == s[j]); } } } }
pub open spec fn isdig(c: char) -> bool { 0x30 <= c as int <= 0x39 }
/// length of the base prefix and the base a digit string announces; base 0: no number
pub open spec fn base_of(t: Seq<char>) -> (int, int) {
  if t.len() == 0 || !isdig(t[0]) { (0, 0) } else if t.len() == 1 || t[0] != '0' { (0, 10) }
  else if t[1] == 'o' { (2, 8) } else if t[1] == 'b' || t[1] == 'B' { (2, 2) } else if t[1] == 'x' || t[1] == 'X' { (2, 16) } else if isdig(t[1]) { (0, 10) } else { (0, 0) } }
pub open spec fn pbase(s: Seq<char>) -> int { let t = strim(s); base_of(t.skip(npre(t))).1 }
pub open spec fn pdigs(s: Seq<char>) -> Seq<char> { let t = strim(s); let k = npre(t); t.skip(k + base_of(t.skip(k)).0) }
/// the string is a number; its value
pub open spec fn psok(s: Seq<char>) -> bool { pbase(s) != 0 && digs(pdigs(s), pbase(s)) }
pub open spec fn pnan(s: Seq<char>) -> bool { pdigs(s).len() == 0 }
pub open spec fn pval(s: Seq<char>) -> int { dval(pdigs(s), pbase(s)) }
pub open spec fn zneg(s: Seq<char>) -> bool { strim(s).len() > 0 && strim(s)[0] == '-' }
pub open spec fn zrest(s: Seq<char>) -> Seq<char> { if zneg(s) { strim(s).skip(1) } else { strim(s) } }
''')
def parse_ens(b): return 'ex(O, H), r is Ok == digs(s@, %d), r is Ok ==> r->Ok_0 >= O.len() && cn(H, r->Ok_0) && na(H, r->Ok_0) == (s@.len() == 0) && (s@.len() > 0 ==> nv(H, r->Ok_0) == dval(s@, %d))' % (b, b)
def p2loop(b, w, per, ls):
    return dict(inv='ex(h0, H), v == h0.len(), H.len() == h0.len() + 1, n0 == s@.len(), H[[v]].len() == i0 as int / PER, tmp < p2(W * (i0 as int % PER)), forall|j: int| n0 - i0 <= j < n0 ==> dv(#[trigger] s@[j]) < B, rv(H[[v]], 0, H[[v]].len() as int) + tmp * pw(H[[v]].len() as int) == sfv(s@, B, i0 as int)'.replace('PER', str(per)).replace('W', str(w)).replace('B', str(b)),
      pre='lemma_p2_0(); lemma_mul_basics(pw(0)); lemma_rv_zero(H[[v]], 0, 0);', ghost=['c0 = tmp'], ls=ls,
      le='')
# one step of a power-of-two loop: digit E of W bits goes to bit J of the word; k words are finished
P2LE = '''let k = i0 as int / PER; let j = i0 as int % PER; let q = pw(k); let P = p2(W * j); let e = E as int; let w = c0 as int + e * P; let ns = s@.len() as int;
   assert(W * i0 == 32 * k + W * j); lemma_ip_p2(W, i0 as int); lemma_p2_1(0); lemma_p2_pw(k); lemma_p2_add(32 * k, W * j); assert(ip(B, i0 as int) == q * P); assert(s@[ns - (i0 + 1)] == c); assert(dv(c) == e);
   assert(sfv(s@, B, i0 + 1) == sfv(s@, B, i0 as int) + e * (q * P)); assert(w * q == c0 * q + e * (q * P)) by(nonlinear_arith) requires w == c0 as int + e * P;
   if j == PER - 1 { lemma_step(H[[v]], 0, k); lemma_rv_eq(H[[v]], 0, hl0[[v]], 0, k); assert(H[[v]][k] == w); assert((i0 + 1) as int / PER == k + 1); lemma_mul_basics(pw(k + 1)); assert((i0 + 1) as int % PER == 0); } else { assert((i0 + 1) as int / PER == k); assert((i0 + 1) as int % PER == j + 1); assert(W * (j + 1) == W * j + W); assert(tmp == w); }'''
P2TAIL = 'let m = ha0[[v]].len() as int; lemma_step(H[[v]], 0, m); lemma_rv_eq(H[[v]], 0, ha0[[v]], 0, m); lemma_mul_basics(pw(m)); lemma_rv_bound(ha0[[v]], 0, m); lemma_sfv_all(s@, %d); if s@.len() == 0 { assert(H[[v]].len() == 0); }'
def p2parse(nm, b, w, e, per, bits):
    lp = p2loop(b, w, per, bits + ' lemma_digits(tmp, %d * (i0 as int %% %d), %d);' % (w, per, w))
    lp['le'] = P2LE.replace('PER', str(per)).replace('W', str(w)).replace('B,', '%d,' % b).replace('E as', e + ' as')
    lp['pre'] += ' lemma_p2_small();'
    return lp
F(NAT + 'from_bin_str', 'from_bin_str', props='C12 C06 C07 C08 C25', ens=parse_ens(2),
  loops={0: p2parse('bin', 2, 1, 'x', 32, 'assert(i0 & 31 == i0 % 32) by(bit_vector);')}, at={'before nat_from_vec:0': P2TAIL % 2})
F(NAT + 'from_hex_str', 'from_hex_str', props='C12 C06 C07 C08 C25', ens=parse_ens(16),
  loops={0: p2parse('hex', 16, 4, 'n', 8, 'assert(i0 & 7 == i0 % 8 && ((i0 & 7) << 2usize) == 4 * (i0 % 8)) by(bit_vector);')}, at={'before nat_from_vec:0': P2TAIL % 16})
F(NAT + 'from_oct_str', 'from_oct_str', props='C12 C06 C07 C08 C25', ens=parse_ens(8),
  loops={0: dict(inv='ex(h0, H), v == h0.len(), H.len() == h0.len() + 1, n0 == s@.len(), i == 3 * i0 % 32, H[[v]].len() == 3 * i0 / 32, tmp < p2(i as int), forall|j: int| n0 - i0 <= j < n0 ==> dv(#[trigger] s@[j]) < 8, rv(H[[v]], 0, H[[v]].len() as int) + tmp * pw(H[[v]].len() as int) == sfv(s@, 8, i0 as int)',
    pre='lemma_p2_small(); lemma_mul_basics(pw(0)); lemma_rv_zero(H[[v]], 0, 0);', ghost=['c0 = tmp', 'b0 = i'],
    ls='lemma_p2_small(); if i + 3 <= 32 { lemma_digits(tmp, i as int, 3); lemma_p2_add(i as int, 3); } if i >= 29 { let cc = (32 - i) as u32; lemma_digits(tmp, i as int, cc as int); let C = p2(cc as int); assert forall|n: u32, s: u32| #![trigger (n >> s)] s == cc && n < 8 implies (n >> s) == n as int / C && n as int / C < p2(3 - cc) by { lemma_oct(n, cc); } assert forall|x: u32, n: u32| #![trigger (x & n)] x == C - 1 && n < 8 implies (x & n) == n as int % C && n as int % C < C by { lemma_oct(n, cc); } assert forall|s: u32| #![trigger (1u32 << s)] s == cc implies 1u32 << s == C && C >= 1 by { lemma_oct(0, cc); } lemma_oct(0, cc); lemma_p2_add(i as int, cc as int); }',
    le='''let k = 3 * i0 / 32; let j = b0 as int; let q = pw(k); let P = p2(j); let e = dv(c); let ns = s@.len() as int;
      assert(3 * i0 == 32 * k + j); lemma_ip_p2(3, i0 as int); lemma_p2_pw(k); lemma_p2_add(32 * k, j); assert(ip(8, i0 as int) == q * P); assert(s@[ns - (i0 + 1)] == c);
      assert(sfv(s@, 8, i0 + 1) == sfv(s@, 8, i0 as int) + e * (q * P));
      if j + 3 >= 32 { let cc = 32 - j; let C = p2(cc); let lo = e % C; let hi = e / C; lemma_p2_pos(cc); lemma_fundamental_div_mod(e, C); let w = c0 as int + lo * P; lemma_step(H[[v]], 0, k); lemma_rv_eq(H[[v]], 0, hl0[[v]], 0, k); assert(H[[v]][k] == w); lemma_step(H[[v]], 0, k);
        assert(w * q + hi * (0x1_0000_0000 * q) == c0 * q + e * (q * P)) by(nonlinear_arith) requires w == c0 as int + lo * P, e == C * hi + lo, P * C == 0x1_0000_0000; assert(tmp == hi); assert(3 * (i0 + 1) / 32 == k + 1); }
      else { let w = c0 as int + e * P; assert(tmp == w); assert(w * q == c0 * q + e * (q * P)) by(nonlinear_arith) requires w == c0 as int + e * P; assert(3 * (i0 + 1) / 32 == k); }''')},
  at={'before nat_from_vec:0': P2TAIL % 8})
L('lemma_dval_take', '''
pub proof fn lemma_dval_take(s: Seq<char>, b: int, i: int) requires 0 <= i < s.len() ensures dval(s.take(i + 1), b) == b * dval(s.take(i), b) + dv(s[i])
{ let t = s.take(i + 1); assert(t.drop_last() =~= s.take(i)); assert(t.last() == s[i]); }
pub proof fn lemma_dval_nonneg(s: Seq<char>, b: int) requires b >= 0 ensures dval(s, b) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_dval_nonneg(s.drop_last(), b); let x = dval(s.drop_last(), b); assert(b * x >= 0) by(nonlinear_arith) requires b >= 0, x >= 0; } }
''')
F(NAT + 'from_dec_str', 'from_dec_str', props='C12 C06 C07 C08 C25', ens=parse_ens(10),
  loops={0: dict(inv='ex(h0, H), v == h0.len(), H.len() == h0.len() + 1, n0 == s_1@.len(), H[[v]].len() == i0, forall|j: int| 0 <= j < i0 ==> dv(#[trigger] s_1@[j]) < 10, forall|j: int| 0 <= j < i0 ==> (#[trigger] H[[v]][j]) == dv(s_1@[j])'),
    1: dict(inv='ex(h0, H), H[[v]] == ha0[[v]], n1 == s_1@.len(), cn(H, nat_v), !na(H, nat_v), nat_v > v, nv(H, nat_v) == dval(s_1@.take(i1 as int), 10)',
     ls='lemma_dval_take(s_1@, 10, i1 as int); lemma_p2_small();')},
  at={'start': 'lemma_ctrim0(s@, 10); lemma_dval_nonneg(s@, 10); assert(dval(Seq::<char>::empty(), 10) == 0);', 'after nat_from_u32:1': 'assert(s_1@.take(0) =~= Seq::<char>::empty());', 'ret:3': 'assert(s_1@.take(n1 as int) =~= s_1@);'})
F(NAT + 'check_base', 'check_base', props='C12 C06 C07 C08 C25', nodec=False,
  ens='O == H, r is Ok == (base_of(s@.skip(npre(s@))).1 != 0), r is Ok ==> r->Ok_0.0 == npre(s@) + base_of(s@.skip(npre(s@))).0 && r->Ok_0.1 == base_of(s@.skip(npre(s@))).1',
  loops={0: dict(inv='H == h0, i == pos0, pos0 <= s@.len(), t1 == s@.len(), forall|j: int| 0 <= j < pos0 ==> skc(#[trigger] s@[j])', dec='s@.len() - pos0',
     ls='', post='lemma_npre(s@, s@.len() as int);')},
  at={'ret:0': 'lemma_npre(s@, i as int); let t = s@.skip(i as int); assert(t[0] == c); if t.len() > 1 { assert(t[1] == s@[i + 1]); }'})
F(N + 'core::str::traits::FromStr>::from_str', 'nat_from_str', props='C12 C06 C07 C08 C25',
  ens='ex(O, H), r is Ok == psok(s@), r is Ok ==> r->Ok_0 >= O.len() && cn(H, r->Ok_0) && na(H, r->Ok_0) == pnan(s@) && (!pnan(s@) ==> nv(H, r->Ok_0) == pval(s@))',
  at={'start': 'lemma_npre_all(strim(s@));'})
F(Z + 'core::str::traits::FromStr>::from_str', 'bi_from_str', props='C12 C06 C07 C08 C25',
  ens='ex(O, H), r is Ok == (strim(s@).len() > 0 && psok(zrest(s@))), r is Ok ==> r->Ok_0.nat >= O.len() && cb(H, r->Ok_0) && nb(H, r->Ok_0) == pnan(zrest(s@)) && (!pnan(zrest(s@)) ==> bv(H, r->Ok_0) == if zneg(s@) { -pval(zrest(s@)) } else { pval(zrest(s@)) })')
