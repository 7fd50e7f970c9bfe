# ---- text output: Display, Binary, Octal, LowerHex, UpperHex, Debug of Nat, BigInt and Rat
L('lemma_fmt_defs', r'''
/// a digit character is the digit of its value
pub proof fn lemma_dch(d: int, up: bool) requires 0 <= d < 16 ensures dv(dch(d, up)) == d, (dch(d, up) == '0') == (d == 0) { }
pub proof fn lemma_ctrim_push(s: Seq<char>, c: char) ensures ctrim(s.push(c), '0') == (if ctrim(s, '0').len() > 0 { ctrim(s, '0').push(c) } else if c == '0' { Seq::empty() } else { seq![c] }) decreases s.len()
{ let t = s.push(c);
  if s.len() == 0 { assert(t.skip(1) =~= Seq::<char>::empty()); assert(ctrim(s, '0').len() == 0); assert(t =~= seq![c]); assert(t[0] == c); if c == '0' { assert(ctrim(t, '0') == ctrim(t.skip(1), '0')); } }
  else { assert(t[0] == s[0]); if s[0] == '0' { lemma_ctrim_push(s.skip(1), c); assert(t.skip(1) =~= s.skip(1).push(c)); } } }
/// zero padded digits: trimmed they are the digits
pub proof fn lemma_npad(x: int, b: int, up: bool, w: int) requires 2 <= b <= 16, 0 <= x < ip(b, w), w >= 1
  ensures 1 <= num(x, b, up).len() <= w, num(x, b, up).len() == w ==> num(x, b, up) == npad(x, b, up, w), ctrim(npad(x, b, up, w), '0') == (if x == 0 { Seq::empty() } else { num(x, b, up) }), npad(x, b, up, w).len() == w decreases w
{ let d = x % b; lemma_mod_bound(x, b); lemma_dch(d, up); lemma_fundamental_div_mod(x, b); let q = x / b; lemma_div_pos_is_pos(x, b);
  lemma_ctrim_push(npad(q, b, up, w - 1), dch(d, up)); let y = ip(b, w - 1); assert(ip(b, w) == b * y);
  assert(q < y) by(nonlinear_arith) requires x < b * y, x == b * q + d, d >= 0, b >= 2;
  if w == 1 { assert(y == 1); assert(q == 0); assert(npad(q, b, up, 0) =~= Seq::empty()); assert(ctrim(npad(q, b, up, 0), '0').len() == 0); assert(b * 0 == 0); assert(x == d); assert(npad(x, b, up, 1) =~= seq![dch(x, up)]); assert(num(x, b, up) =~= seq![dch(x, up)]); }
  else { lemma_npad(q, b, up, w - 1); if x < b { if q >= 1 { assert(b * q >= b) by(nonlinear_arith) requires q >= 1, b >= 2; } } else { if q <= 0 { assert(b * q <= 0) by(nonlinear_arith) requires q <= 0, b >= 2; } } } }
pub proof fn lemma_npjoin(x: int, y: int, b: int, up: bool, w: int) requires 2 <= b <= 16, x > 0, 0 <= y < ip(b, w), w >= 0 ensures num(x * ip(b, w) + y, b, up) == num(x, b, up) + npad(y, b, up, w) decreases w
{ let p = ip(b, w); lemma_ip_pos(b, w);
  if w == 0 { assert(x * 1 == x); assert(num(x, b, up) + npad(y, b, up, 0) =~= num(x, b, up)); }
  else { let p1 = ip(b, w - 1); lemma_ip_pos(b, w - 1); let n = x * p + y; let q = y / b; let d = y % b; lemma_fundamental_div_mod(y, b); lemma_mod_bound(y, b); lemma_div_pos_is_pos(y, b); assert(p == b * p1);
    let m = x * p1 + q; assert(n == m * b + d) by(nonlinear_arith) requires n == x * p + y, p == b * p1, m == x * p1 + q, y == b * q + d; lemma_fundamental_div_mod_converse(n, b, m, d);
    assert(q < p1) by(nonlinear_arith) requires y < b * p1, y == b * q + d, d >= 0, b >= 2;
    assert(m >= 1) by(nonlinear_arith) requires m == x * p1 + q, x >= 1, p1 >= 1, q >= 0; assert(n >= b) by(nonlinear_arith) requires n == m * b + d, m >= 1, d >= 0, b >= 2;
    lemma_npjoin(x, q, b, up, w - 1); assert(num(n, b, up) =~= num(x, b, up) + npad(y, b, up, w)); } }
pub proof fn lemma_ip_pos(b: int, w: int) requires b >= 1, w >= 0 ensures ip(b, w) >= 1 decreases w { if w > 0 { lemma_ip_pos(b, w - 1); let y = ip(b, w - 1); assert(b * y >= 1) by(nonlinear_arith) requires b >= 1, y >= 1; } }
pub proof fn lemma_wpow() ensures ip(2, 32) == 0x1_0000_0000, ip(16, 8) == 0x1_0000_0000 { lemma_p2_small(); lemma_ip_p2(1, 32); lemma_ip_p2(4, 8); }
pub proof fn lemma_sjoin_ins(v: Seq<Str>, x: Str) ensures sjoin(v.insert(0, x)) == x@ + sjoin(v) decreases v.len()
{ let t = v.insert(0, x); if v.len() == 0 { assert(t.drop_last() =~= v); assert(sjoin(v) =~= Seq::<char>::empty()); assert(t.last() == x); assert(sjoin(t) =~= x@); assert(x@ + sjoin(v) =~= x@); }
  else { lemma_sjoin_ins(v.drop_last(), x); assert(t.drop_last() =~= v.drop_last().insert(0, x)); assert(t.last() == v.last()); assert(sjoin(t) =~= x@ + sjoin(v)); } }
/// the words' texts side by side are the number's text
pub proof fn lemma_wtexts(s: Seq<u32>, v: Seq<Str>, b: int, up: bool, w: int, k: int)
  requires 2 <= b <= 16, w >= 1, ip(b, w) == 0x1_0000_0000, v.len() == s.len(), 1 <= k <= s.len(), canon(s), v[0]@ == num(s[s.len() - 1] as int, b, up), forall|j: int| 1 <= j < s.len() ==> (#[trigger] v[j])@ == npad(s[s.len() - 1 - j] as int, b, up, w)
  ensures sjoin(v.take(k)) == num(rv(s, s.len() - k, k), b, up), s.len() > 1 ==> rv(s, s.len() - k, k) >= 1 decreases k
{ let n = s.len() as int; let t = v.take(k);
  if k == 1 { assert(t.drop_last() =~= Seq::empty()); assert(sjoin(t.drop_last()) =~= Seq::<char>::empty()); assert(t.last() == v[0]); assert(sjoin(t) =~= v[0]@); lemma_step(s, n - 1, 0); assert(rv(s, n - 1, 0) == 0); assert(pw(0) == 1); let z = s[n - 1] as int; assert(z * 1 == z); assert(rv(s, n - 1, 1) == z); }
  else { lemma_wtexts(s, v, b, up, w, k - 1); assert(t.drop_last() =~= v.take(k - 1)); assert(t.last() == v[k - 1]); lemma_rv_low(s, n - k, k - 1); let x = rv(s, n - k + 1, k - 1); let y = s[n - k] as int; lemma_npjoin(x, y, b, up, w); assert(x * 0x1_0000_0000 + y == rv(s, n - k, k)); } }
/// little endian digits
pub open spec fn lf(s: Seq<char>, b: int, m: int) -> int decreases m { if m <= 0 { 0 } else { lf(s, b, m - 1) + dv(s[m - 1]) * ip(b, m - 1) } }
pub proof fn lemma_lf_push(s: Seq<char>, c: char, b: int, m: int) requires 0 <= m <= s.len() ensures lf(s.push(c), b, m) == lf(s, b, m) decreases m { if m > 0 { lemma_lf_push(s, c, b, m - 1); assert(s.push(c)[m - 1] == s[m - 1]); } }
pub proof fn lemma_lf_add(s: Seq<char>, c: char, b: int) ensures lf(s.push(c), b, s.len() as int + 1) == lf(s, b, s.len() as int) + dv(c) * ip(b, s.len() as int) { lemma_lf_push(s, c, b, s.len() as int); assert(s.push(c)[s.len() as int] == c); }
pub proof fn lemma_lf_rev(s: Seq<char>, b: int, m: int) requires 0 <= m <= s.len() ensures sfv(s.reverse(), b, m) == lf(s, b, m) decreases m { if m > 0 { lemma_lf_rev(s, b, m - 1); let r = s.reverse(); assert(r[r.len() - m] == s[m - 1]); } }
pub open spec fn odig(s: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> 0x30 <= (#[trigger] s[j]) as u32 <= 0x37 }
/// digits without a leading zero
pub proof fn lemma_num(t: Seq<char>) requires odig(t), t.len() >= 1, t[0] != '0' ensures t == num(dval(t, 8), 8, false), dval(t, 8) >= 1 decreases t.len()
{ let c = t.last(); let d = dv(c); let u = t.drop_last(); assert(0x30 <= t[t.len() - 1] as u32 <= 0x37); assert(0 <= d < 8); assert(dch(d, false) == c) by { assert(c as u32 == dch(d, false) as u32); }
  if t.len() == 1 { assert(u =~= Seq::empty()); assert(dval(u, 8) == 0); assert(dval(t, 8) == d); assert(t =~= seq![c]); assert(d != 0) by { if d == 0 { assert(c as u32 == 0x30); assert(c == '0'); } } assert(num(d, 8, false) =~= seq![dch(d, false)]); }
  else { assert forall|j: int| 0 <= j < u.len() implies 0x30 <= (#[trigger] u[j]) as u32 <= 0x37 by { assert(u[j] == t[j]); } assert(u[0] == t[0]); lemma_num(u); let q = dval(u, 8); let n = dval(t, 8); assert(n == 8 * q + d); lemma_fundamental_div_mod_converse(n, 8, q, d); assert(t =~= u.push(c)); assert(num(n, 8, false) == num(q, 8, false).push(dch(d, false))); } }
pub proof fn lemma_ctrim_head(s: Seq<char>) requires odig(s) ensures ctrim(s, '0').len() > 0 ==> ctrim(s, '0')[0] != '0', odig(ctrim(s, '0')) decreases s.len()
{ if s.len() > 0 && s[0] == '0' { let t = s.skip(1); assert forall|j: int| 0 <= j < t.len() implies 0x30 <= (#[trigger] t[j]) as u32 <= 0x37 by { assert(t[j] == s[j + 1]); } lemma_ctrim_head(t); } }
/// octal: the digits collected least significant first, reversed and trimmed
pub proof fn lemma_octal(s: Seq<char>, n: int) requires odig(s), lf(s, 8, s.len() as int) == n ensures n >= 0, ctrim(s.reverse(), '0') == (if n == 0 { Seq::empty() } else { num(n, 8, false) }), num(0, 8, false) == seq!['0']
{ let r = s.reverse(); assert forall|j: int| 0 <= j < r.len() implies 0x30 <= (#[trigger] r[j]) as u32 <= 0x37 by { assert(r[j] == s[s.len() - 1 - j]); } lemma_lf_rev(s, 8, s.len() as int); lemma_sfv_all(r, 8); lemma_ctrim0(r, 8); lemma_ctrim_head(r); let t = ctrim(r, '0'); if t.len() > 0 { lemma_num(t); } else { assert(t =~= Seq::empty()); } }
/// a word added to the octal digits: P is the weight of the next digit
pub proof fn lemma_oct_word(l: int, pre: int, e: int, P: int, k: int)
  requires 0 <= e < 0x1_0000_0000, 0 <= k <= 2
  ensures k == 0 ==> l + (e % 0x4000_0000) * P + (e / 0x4000_0000) * (0x4000_0000 * P) == l + e * P,
    k == 1 ==> l + ((e % 2) * 4 + pre) * P + ((e / 2) % 0x4000_0000) * (8 * P) + (e / 0x8000_0000) * (0x4000_0000 * (8 * P)) == (l + pre * P) + e * (4 * P),
    k == 2 ==> l + ((e % 4) * 2 + pre) * P + ((e / 4) % 0x4000_0000) * (8 * P) == (l + pre * P) + e * (2 * P)
{ if k == 0 { let a = e % 0x4000_0000; let b = e / 0x4000_0000; assert(a * P + b * (0x4000_0000 * P) == e * P) by(nonlinear_arith) requires e == a + 0x4000_0000 * b; }
  else if k == 1 { let a = e % 2; let b = (e / 2) % 0x4000_0000; let c = e / 0x8000_0000; assert(e == a + 2 * b + 0x8000_0000 * c); assert((a * 4 + pre) * P + b * (8 * P) + c * (0x4000_0000 * (8 * P)) == pre * P + e * (4 * P)) by(nonlinear_arith) requires e == a + 2 * b + 0x8000_0000 * c; }
  else { let a = e % 4; let b = (e / 4) % 0x4000_0000; assert(e == a + 4 * b); assert((a * 2 + pre) * P + b * (8 * P) == pre * P + e * (2 * P)) by(nonlinear_arith) requires e == a + 4 * b; } }
pub proof fn lemma_p2_30() ensures p2(30) == 0x4000_0000, p2(31) == 0x8000_0000, p2(29) == 0x2000_0000 { lemma_p2_small(); lemma_p2_1(31); lemma_p2_1(30); lemma_p2_1(29); }
/// the bits of a word which go into the digit that straddles the previous word
pub proof fn lemma_octbits(e: u32, pre: u8) 
  ensures (e >> 30) == e / 0x4000_0000, (e >> 31) == e / 0x8000_0000, (e >> 1) == e / 2, (e >> 2) == e / 4,
    pre < 4 ==> ((((e & 1) << 2) as u8) | pre) == (e % 2) * 4 + pre, pre < 2 ==> ((((e & 3) << 1) as u8) | pre) == (e % 4) * 2 + pre, (((e & 1) << 2) as u8) <= 4, (((e & 3) << 1) as u8) <= 6, pre < 4 ==> ((((e & 1) << 2) as u8) | pre) < 8, pre < 2 ==> ((((e & 3) << 1) as u8) | pre) < 8,
    ((e >> 30) as u8) == e / 0x4000_0000, ((e >> 31) as u8) == e / 0x8000_0000, ((e & 1) << 2) <= 4, ((e & 3) << 1) <= 6
{ assert((e >> 30) == e / 0x4000_0000 && (e >> 31) == e / 0x8000_0000 && (e >> 1) == e / 2 && (e >> 2) == e / 4 && ((e & 1) << 2) <= 4 && ((e & 3) << 1) <= 6) by(bit_vector);
  assert(pre < 4 ==> ((((e & 1) << 2) as u8) | pre) as u32 == (e % 2) * 4 + pre as u32) by(bit_vector); assert(pre < 2 ==> ((((e & 3) << 1) as u8) | pre) as u32 == (e % 4) * 2 + pre as u32) by(bit_vector);
}
/// digit k of a word
pub proof fn lemma_octdig(t: u32, k: u32) requires k < 10 ensures ((t >> ((k * 3) as u32)) & 7) == (t as int / p2(3 * k)) % 8, ((t >> ((k * 3) as u32)) & 7) < 8
{ let j = (k * 3) as u32; let x = t >> j; lemma_p2_pos(3 * k as int); lemma_shr32(t, j); assert((x & 7) == x % 8 && (x & 7) < 8) by(bit_vector); }
/// one more digit of t
pub proof fn lemma_octcat(t: int, k: int, l: int, d: int) requires t >= 0, k >= 0, l >= 0, d == (t / p2(3 * k)) % 8 
  ensures (t % p2(3 * (k + 1))) * p2(3 * l) == (t % p2(3 * k)) * p2(3 * l) + d * p2(3 * (l + k))
{ let a = p2(3 * k); lemma_p2_pos(3 * k); lemma_p2_add(3 * k, 3); lemma_p2_small(); lemma_p2_add(3 * k, 3 * l); let q = t / a; let r = t % a; lemma_fundamental_div_mod(t, a); lemma_fundamental_div_mod(q, 8); lemma_mod_bound(t, a); let z = q / 8;
  assert(t == z * (a * 8) + (d * a + r)) by(nonlinear_arith) requires t == a * q + r, q == 8 * z + d;
  assert(0 <= d * a + r < a * 8) by(nonlinear_arith) requires 0 <= d <= 7, 0 <= r < a; lemma_fundamental_div_mod_converse(t, a * 8, z, d * a + r);
  let P = p2(3 * l); assert((d * a + r) * P == r * P + d * (a * P)) by(nonlinear_arith); }
/// the last digit split off
pub proof fn lemma_decstep(v: int, J: Seq<char>) requires v >= 1 ensures v / 10 < v, v / 10 >= 0, v % 10 < 10,
   num(v, 10, false) + J == (if v / 10 > 0 { num(v / 10, 10, false) + (num(v % 10, 10, false) + J) } else { num(v % 10, 10, false) + J })
{ lemma_fundamental_div_mod(v, 10); let q = v / 10; let d = v % 10; assert(num(d, 10, false) =~= seq![dch(d, false)]); if v < 10 { assert(q == 0); assert(d == v); } else { assert(num(v, 10, false) == num(q, 10, false).push(dch(d, false))); assert(num(v, 10, false) + J =~= num(q, 10, false) + (num(d, 10, false) + J)); } }
/// v is what is left of n after the digits J were split off
pub open spec fn decinv(n: int, v: int, J: Seq<char>, k: int) -> bool { if v > 0 { num(n, 10, false) == num(v, 10, false) + J } else if k > 0 { num(n, 10, false) == J } else { n == 0 } }
pub proof fn lemma_revpush(s: Seq<Str>, x: Str) ensures sjoin(s.push(x).reverse()) == x@ + sjoin(s.reverse()) { lemma_sjoin_ins(s.reverse(), x); assert(s.push(x).reverse() =~= s.reverse().insert(0, x)); }
/// a number below 2^32 is one word
pub proof fn lemma_oneword(s: Seq<u32>) requires canon(s), s.len() >= 1, val(s) < 0x1_0000_0000 ensures s.len() == 1, s[0] == val(s)
{ if s.len() > 1 { lemma_top(s); lemma_pw_mono(1, s.len() - 1); assert(pw(1) == 0x1_0000_0000 * pw(0)); } lemma_val1(s); }
/// the text of a number: NaN, or the prefix (in the alternate form) and the digits
pub open spec fn ftx(nan: bool, v: int, b: int, up: bool, alt: bool, pre: Seq<char>) -> Seq<char> { if nan { Seq::<char>::empty().push('N').push('a').push('N') } else if alt { pre + num(v, b, up) } else { num(v, b, up) } }
pub open spec fn fbx(nan: bool, v: int, b: int, up: bool, alt: bool, pre: Seq<char>) -> Seq<char> { if !nan && v < 0 { Seq::<char>::empty().push('-') + ftx(false, -v, b, up, alt, pre) } else { ftx(nan, v, b, up, alt, pre) } }
''')
L('lemma_fmt_round_trip', r'''
/// std: no printable ASCII character is white space
#[verifier::external_body] pub proof fn axiom_ws(c: char) requires 0x21 <= c as int <= 0x7e ensures !is_ws(c) { }
/// the digits of n and their value
pub proof fn lemma_num_val(n: int, b: int, up: bool) requires n >= 0, 2 <= b <= 16
  ensures ({ let t = num(n, b, up); t.len() >= 1 && digs(t, b) && dval(t, b) == n && (n > 0 ==> t[0] != '0') && (n == 0 ==> t.len() == 1) && (b <= 10 ==> forall|j: int| 0 <= j < t.len() ==> isdig(#[trigger] t[j])) && forall|j: int| 0 <= j < t.len() ==> 0x30 <= (#[trigger] t[j]) as int <= 0x66 }) decreases n
{ let t = num(n, b, up);
  if n < b { lemma_dch(n, up); assert(t =~= seq![dch(n, up)]); assert(t.drop_last() =~= Seq::<char>::empty()); assert(dval(Seq::<char>::empty(), b) == 0); assert(t.last() == dch(n, up)); assert(b * 0 == 0); }
  else { let q = n / b; let d = n % b; lemma_fundamental_div_mod(n, b); lemma_mod_bound(n, b); lemma_div_pos_is_pos(n, b); lemma_div_decreases(n, b); lemma_num_val(q, b, up); lemma_dch(d, up); let u = num(q, b, up);
    assert(q >= 1) by { if q <= 0 { assert(b * q <= 0) by(nonlinear_arith) requires q <= 0, b >= 2; } }
    assert(t == u.push(dch(d, up))); assert(t.drop_last() =~= u); assert(t.last() == dch(d, up)); assert(t[0] == u[0]);
    assert forall|j: int| 0 <= j < t.len() implies dv(#[trigger] t[j]) < b && 0x30 <= t[j] as int <= 0x66 by { if j < u.len() { assert(t[j] == u[j]); } }
    if b <= 10 { assert forall|j: int| 0 <= j < t.len() implies isdig(#[trigger] t[j]) by { if j < u.len() { assert(t[j] == u[j]); } } } } }
pub proof fn lemma_strim_id(t: Seq<char>) requires t.len() > 0, 0x21 <= t[0] as int <= 0x7e, 0x21 <= t.last() as int <= 0x7e ensures strim(t) == t { axiom_ws(t[0]); axiom_ws(t.last()); }
/// t parses as the non-negative number v
pub open spec fn rtn(t: Seq<char>, v: int) -> bool { psok(t) && !pnan(t) && pval(t) == v }
pub open spec fn rtz(t: Seq<char>, v: int) -> bool { strim(t).len() > 0 && psok(zrest(t)) && !pnan(zrest(t)) && v == if zneg(t) { -pval(zrest(t)) } else { pval(zrest(t)) } }
pub open spec fn bpre(b: int) -> Seq<char> { if b == 10 { Seq::empty() } else { Seq::empty().push('0').push(if b == 2 { 'b' } else if b == 8 { 'o' } else { 'x' }) } }
pub proof fn lemma_rtn(v: int, b: int, up: bool) requires v >= 0, b == 2 || b == 8 || b == 10 || b == 16
  ensures ({ let t = bpre(b) + num(v, b, up); rtn(t, v) && t.len() > 0 && t[0] != '-' && strim(t) == t })
{ let u = num(v, b, up); lemma_num_val(v, b, up); let t = bpre(b) + u;
  if b == 10 { assert(t =~= u); assert(isdig(t[0])); } else { assert(t[0] == '0'); assert(t[1] == bpre(b)[1]); assert(isdig(t[0])); }
  assert(t.last() == u[u.len() - 1]); assert(0x30 <= t[0] as int <= 0x66); lemma_strim_id(t); assert(!skc(t[0])); lemma_npre(t, 0); assert(t.skip(0) =~= t);
  if b == 10 { if t.len() > 1 && t[0] == '0' { assert(false); } assert(base_of(t) == (0int, 10int)); assert(pdigs(t) =~= u); }
  else { assert(base_of(t) == (2int, b)); assert(pdigs(t) =~= u); } }
/// the printed text parses back
pub proof fn lemma_rtz(v: int, b: int, up: bool, alt: bool) requires b == 2 || b == 8 || b == 10 || b == 16, alt || b == 10 ensures rtz(fbx(false, v, b, up, alt, bpre(b)), v), v >= 0 ==> rtn(ftx(false, v, b, up, alt, bpre(b)), v)
{ let t = fbx(false, v, b, up, alt, bpre(b));
  if v >= 0 { lemma_rtn(v, b, up); if !alt { assert(bpre(b) + num(v, b, up) =~= num(v, b, up)); } }
  else { lemma_rtn(-v, b, up); let w = bpre(b) + num(-v, b, up); assert(num(-v, b, up) =~= w || alt); assert(ftx(false, -v, b, up, alt, bpre(b)) =~= w); lemma_num_val(-v, b, up);
    assert(t =~= Seq::<char>::empty().push('-') + w); assert(t[0] == '-'); assert(t.last() == w.last()); assert(w.last() == num(-v, b, up)[num(-v, b, up).len() - 1]); lemma_strim_id(t); assert(t.skip(1) =~= w); } }
pub open spec fn fch(c: char) -> bool { c == '-' || 0x30 <= c as int <= 0x7a }
pub proof fn lemma_fch(v: int, b: int, up: bool, alt: bool) requires b == 2 || b == 8 || b == 10 || b == 16
  ensures ({ let t = fbx(false, v, b, up, alt, bpre(b)); t.len() > 0 && forall|j: int| 0 <= j < t.len() ==> fch(#[trigger] t[j]) })
{ let w = if v < 0 { -v } else { v }; lemma_num_val(w, b, up); let u = num(w, b, up); let x = ftx(false, w, b, up, alt, bpre(b)); let m = bpre(b).len() as int;
  assert forall|j: int| 0 <= j < x.len() implies fch(#[trigger] x[j]) by { if alt { if j >= m { assert(x[j] == u[j - m]); } else { assert(x[j] == bpre(b)[j]); } } else { assert(x[j] == u[j]); } }
  let t = fbx(false, v, b, up, alt, bpre(b)); if v < 0 { assert(t.len() == x.len() + 1); assert forall|j: int| 0 <= j < t.len() implies fch(#[trigger] t[j]) by { if j > 0 { assert(t[j] == x[j - 1]); } } } }
pub proof fn lemma_nofind(s: Seq<char>, c: char) requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != c ensures cfind(s, c) < 0 decreases s.len()
{ if s.len() > 0 { let t = s.skip(1); assert(s[0] != c); assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != c by { assert(t[j] == s[j + 1]); } lemma_nofind(t, c); } }
pub proof fn lemma_findat(s: Seq<char>, c: char, k: int) requires 0 <= k < s.len(), s[k] == c, forall|j: int| 0 <= j < k ==> #[trigger] s[j] != c ensures cfind(s, c) == k decreases s.len()
{ if k > 0 { let t = s.skip(1); assert(s[0] != c); assert(t[k - 1] == s[k]); assert forall|j: int| 0 <= j < k - 1 implies #[trigger] t[j] != c by { assert(t[j] == s[j + 1]); } lemma_findat(t, c, k - 1); } }
/// t parses as the fraction n / d
pub open spec fn rtq(s: Seq<char>, n: int, d: int) -> bool { let t = strim(s); let k = cfind(t, '/'); cfind(t, '.') < 0 && k >= 0 && zok(t.take(k)) && zok(t.skip(k + 1)) && zval(t.take(k)) == n && zval(t.skip(k + 1)) == d }
pub proof fn lemma_rtq(n: int, d: int, b: int, up: bool, alt: bool) requires b == 2 || b == 8 || b == 10 || b == 16, alt || b == 10
  ensures rtq(fbx(false, n, b, up, alt, bpre(b)).push('/') + fbx(false, d, b, up, alt, bpre(b)), n, d)
{ let x = fbx(false, n, b, up, alt, bpre(b)); let y = fbx(false, d, b, up, alt, bpre(b)); lemma_fch(n, b, up, alt); lemma_fch(d, b, up, alt); lemma_rtz(n, b, up, alt); lemma_rtz(d, b, up, alt); let t = x.push('/') + y; let k = x.len() as int;
  assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != '.' && (j < k ==> t[j] != '/') && 0x21 <= t[j] as int <= 0x7e by { if j < k { assert(t[j] == x[j]); } else if j > k { assert(t[j] == y[j - k - 1]); } else { assert(t[j] == '/'); } }
  assert(t[t.len() - 1] == t.last()); lemma_strim_id(t); lemma_nofind(t, '.'); assert(t[k] == '/'); lemma_findat(t, '/', k); assert(t.take(k) =~= x); assert(t.skip(k + 1) =~= y); }
''')
FMT = [('Binary', 2, 'false', 32, 'b'), ('LowerHex', 16, 'false', 8, 'x'), ('Debug', 16, 'false', 8, 'x'), ('UpperHex', 16, 'true', 8, 'x'), ('Octal', 8, 'false', 0, 'o'), ('Display', 10, 'false', 0, '')]
def pre(c): return "Seq::<char>::empty().push('0').push('%s')" % c if c else 'Seq::<char>::empty()'
FOUT = 'r is Ok, final(f).alt == old(f).alt, final(f).out@ == old(f).out@ + '
for tr, b, up, w, c in FMT:
    RTE = ', (old(f).alt || %d == 10) && !%%s ==> %%s' % b
    A = '%d, %s, old(f).alt, %s' % (b, up, pre(c))
    kw = {}
    if w:
        kw = dict(loops={0: dict(inv='n0 == H[[slf]].len(), col0@.len() == i0, !na(H, slf), *f == *old(f), forall|j: int| 0 <= j < i0 ==> (#[trigger] col0@[j])@ == npad(H[[slf]][n0 - 1 - j] as int, %d, %s, %d)' % (b, up, w),
                     ghost=['gv = col0@'],
                     ls='lemma_wpow(); lemma_npad(H[[slf]][n0 - 1 - i0] as int, %d, %s, %d);' % (b, up, w),
                     post='lemma_wpow(); lemma_npad(H[[slf]][n0 - 1] as int, %d, %s, %d); V0 = col0@;' % (b, up, w))},
            ghost=['mut V0 = Seq::<Str>::empty()'],
            at={'ret:0': 'assert(f.out@ =~= old(f).out@ + ftx(na(H, slf), nv(H, slf), %s));' % A, 'ret:1': """if !na(H, slf) { let s = H[[slf]]; let V = if old(f).alt { nat_v@.skip(1) } else { nat_v@ }; assert(V.len() == s.len()); assert(V[0]@ =~= num(s[s.len() - 1] as int, %d, %s)); assert forall|j: int| 1 <= j < s.len() implies (#[trigger] V[j])@ == npad(s[s.len() - 1 - j] as int, %d, %s, %d) by { assert(V[j] == V0[j]); }
              lemma_wtexts(s, V, %d, %s, %d, s.len() as int); assert(V.take(s.len() as int) =~= V); if old(f).alt { lemma_sjoin_ins(V, nat_v@[0]); assert(nat_v@ =~= V.insert(0, nat_v@[0])); } } assert(f.out@ =~= old(f).out@ + ftx(na(H, slf), nv(H, slf), AAA));""".replace('AAA', A) % (b, up, b, up, w, b, up, w)})
    if tr == 'Octal':
        OR = '(if {i} % 3 == 0 {{ 0int }} else if {i} % 3 == 1 {{ 2 }} else {{ 1 }})'
        def OI(i): return 'odig(nat_str@), 3 * nat_str@.len() + %s == 32 * %s, pre < p2(%s), lf(nat_str@, 8, nat_str@.len() as int) + pre * p2(3 * nat_str@.len() as int) == rv(H[[slf]], 0, %s as int)' % (OR.format(i=i), i, OR.format(i=i), i)
        kw = dict(loops={
            0: dict(inv='n0 == H[[slf]].len(), !na(H, slf), *f == *old(f), ' + OI('i0'), ghost=['s0 = nat_str@', 'p0 = pre as int', 'L0 = nat_str@.len() as int', 'E = H[[slf]][i0 as int]'],
                    pre='lemma_p2_small();',
                    ls='lemma_octbits(E, pre);',
                    le='''lemma_p2_small(); if i0 % 3 != 0 { let c = s1[L0]; assert(s1 =~= s0.push(c)); lemma_lf_add(s0, c, 8); assert(dv(c) == (if i0 % 3 == 1 { (E % 2) * 4 + p0 } else { (E % 4) * 2 + p0 })); } else { assert(s1 == s0); } lemma_ip_p2(3, L0); lemma_mul_basics(p2(3 * L0)); let P = p2(3 * L0); let e = E as int; lemma_oct_word(lf(s0, 8, L0), p0, e, P, i0 as int % 3); lemma_p2_pw(i0 as int); lemma_step(H[[slf]], 0, i0 as int); lemma_p2_add(3 * L0, 30); lemma_p2_1(3 * L0); lemma_p2_1(3 * L0 + 1); lemma_p2_1(3 * L0 + 2); lemma_p2_add(3 * L0 + 3, 30); lemma_p2_30();'''),
            1: dict(inv='n1 == 10, odig(nat_str@), nat_str@.len() == L1 + i1, lf(nat_str@, 8, L1 + i1) == lf(s1, 8, L1) + (tmp.0 as int % p2(3 * i1)) * p2(3 * L1)', ghost=['gs = nat_str@'],
                    gpre=['s1 = nat_str@', 'L1 = nat_str@.len() as int'], pre='lemma_p2_0(); assert(tmp.0 as int % 1 == 0); let P = p2(3 * L1); assert(0 * P == 0);',
                    ls='lemma_octdig(tmp.0, i1 as u32);',
                    le='let c = nat_str@[L1 + i1]; lemma_lf_add(gs, c, 8); lemma_ip_p2(3, gs.len() as int); lemma_p2_small(); lemma_octcat(tmp.0 as int, i1 as int, L1, dv(c));')},
            at={'ret:0': 'assert(f.out@ =~= old(f).out@ + ftx(na(H, slf), nv(H, slf), %s));' % A,
                'after_loop': '', 'ret:1': 'lemma_octal(gf, nv(H, slf)); assert(f.out@ =~= old(f).out@ + ftx(na(H, slf), nv(H, slf), %s));' % A})
        kw['loops'][0]['post'] = 'gf = if pre > 0 { nat_str@.push(((pre + 48) as u8) as char) } else { nat_str@ }; let L = nat_str@.len() as int; if pre > 0 { lemma_lf_add(nat_str@, ((pre + 48) as u8) as char, 8); } lemma_ip_p2(3, L); lemma_p2_small(); lemma_mul_basics(p2(3 * L)); assert(gf.len() == L + (if pre > 0 { 1int } else { 0 })); assert(pre > 0 ==> dv(gf[L]) == pre);'
        kw['ghost'] = ['mut gf = Seq::<char>::empty()']; kw['at'].pop('after_loop')
    if tr == 'Display':
        kw = dict(ghost=['V = nv(h0, slf)'], loops={0: dict(inv='ex(h0, H), cn(H, nat_v), !na(H, nat_v), nat_v >= h0.len(), cn(H, zero), cn(H, ten), !na(H, zero), !na(H, ten), nv(H, zero) == 0, nv(H, ten) == 10, zero != nat_v, ten != nat_v, *f == *old(f), !na(h0, slf), decinv(V, nv(H, nat_v), sjoin(nat_str@.reverse()), nat_str@.len() as int)',
            dec='nv(H, nat_v)', ghost=['gv = nv(h@, nat_v)', 'gs = nat_str@'], pre='assert(num(V, 10, false) + Seq::<char>::empty() =~= num(V, 10, false)); assert(nat_str@.reverse() =~= Seq::<Str>::empty());',
            le='lemma_decstep(gv, sjoin(gs.reverse())); lemma_revpush(gs, nat_str@.last()); assert(nat_str@ =~= gs.push(nat_str@.last()));')},
            at={'ret:0': 'assert(f.out@ =~= old(f).out@ + ftx(na(O, slf), nv(O, slf), %s));' % A, 'ret:1': 'assert(f.out@ =~= old(f).out@ + ftx(na(O, slf), nv(O, slf), %s));' % A, 'after nat_div_assign:0': 'lemma_decstep(gv, sjoin(gs.reverse())); lemma_oneword(H[[rem]]); lemma_dch(gv % 10, false);'})
    kw = dict(kw); kw['at'] = dict(kw.get('at', {})); RT = 'f.alt || %d == 10' % b
    kw['at']['start'] = 'if %s { lemma_rtz(nv(H, slf), %d, %s, f.alt); }' % (RT, b, up) + (kw['at'].get('start') or '')
    F(N + 'core::fmt::%s>::fmt' % tr, 'nat_fmt_' + tr.lower(), props='C13 C07 C08 C25', pure=(tr != 'Display'), req='cn(H, slf)',
      ens=(FOUT + 'ftx(na(H, slf), nv(H, slf), %s)' % A + RTE % ('na(H, slf)', 'rtn(ftx(false, nv(H, slf), %s), nv(H, slf))' % A)) if tr != 'Display' else 'ex(O, H), ' + FOUT + 'ftx(na(O, slf), nv(O, slf), %s)' % A + RTE % ('na(O, slf)', 'rtn(ftx(false, nv(O, slf), %s), nv(O, slf))' % A), **kw)
for tr, b, up, w, c in FMT:
    A = '%d, %s, old(f).alt, %s' % (b, up, pre(c)); RT = '(f.alt || %d == 10)' % b; RTE = ', (old(f).alt || %d == 10) && !%%s ==> %%s' % b
    F(Z + 'core::fmt::%s>::fmt' % tr, 'bi_fmt_' + tr.lower(), props='C13 C07 C08 C25', req='cb(H, slf)', ens='ex(O, H), ' + FOUT + 'fbx(nb(O, slf), bv(O, slf), %s)' % A + RTE % ('nb(O, slf)', 'rtz(fbx(false, bv(O, slf), %s), bv(O, slf))' % A),
      at={'start': 'if %s { lemma_rtz(bv(H, slf), %d, %s, f.alt); }' % (RT, b, up)})
    F(R + 'core::fmt::%s>::fmt' % tr, 'rat_fmt_' + tr.lower(), props='C13 C07 C08 C25', req='cq(H, slf)',
      ens='ex(O, H), ' + FOUT + "(if nq(O, slf) {{ Seq::<char>::empty().push('N').push('a').push('N') }} else {{ fbx(false, qn(O, slf), {0}).push('/') + fbx(false, qd(O, slf), {0}) }})".format(A if tr != 'Debug' else A.replace('old(f).alt', 'false')) + ('' if tr == 'Debug' else RTE % ('nq(O, slf)', 'rtq(fbx(false, qn(O, slf), {0}).push(\'/\') + fbx(false, qd(O, slf), {0}), qn(O, slf), qd(O, slf))'.format(A))),
      at={} if tr == 'Debug' else {'start': 'if %s { lemma_rtq(qn(H, slf), qd(H, slf), %d, %s, f.alt); }' % (RT, b, up)})
