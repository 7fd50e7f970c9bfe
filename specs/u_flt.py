# Binary floating point: values as bit patterns, rounding to nearest even
L('fl_lemmas', r'''
/// 2^k, 1 for negative k
pub open spec fn p2p(k: int) -> int { p2(if k > 0 { k } else { 0 }) }
pub open spec fn imax(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
/// n / d rounded to an integer, ties to even
pub open spec fn rne(n: int, d: int) -> int { let q = n / d; let r = n % d; if 2 * r > d || (2 * r == d && q % 2 == 1) { q + 1 } else { q } }
/// 2^l <= n / d < 2^(l+1)
pub open spec fn lg(n: int, d: int, l: int) -> bool { d * p2p(l) <= n * p2p(-l) && n * p2p(-l) < 2 * (d * p2p(l)) }
/// n / d == m * 2^x
pub open spec fn vis(n: int, d: int, m: int, x: int) -> bool { n * p2p(-x) == m * (d * p2p(x)) }
/// the exponent of the last place of the format (ms stored fraction bits, least exponent em) near 2^l
pub open spec fn ulp(l: int, ms: int, em: int) -> int { imax(l - ms, em) }
/// the bits of m * 2^x: fields of a normal, a denormal and the carry into the next binade come out of one formula
pub open spec fn fenc(m: int, x: int, ms: int, em: int) -> int { (x - em) * p2(ms) + m }
pub open spec fn finf(ms: int) -> int { if ms == 52 { 0x7ff0_0000_0000_0000 } else { 0x7f80_0000 } }
/// b are the bits of the nearest value of the format to n / d > 0, ties to even, infinity when too large
pub open spec fn isrn(n: int, d: int, b: int, ms: int, em: int) -> bool { exists|l: int| #[trigger] lg(n, d, l) && b == imin(fenc(rne(n * p2p(-ulp(l, ms, em)), d * p2p(ulp(l, ms, em))), ulp(l, ms, em), ms, em), finf(ms)) }
/// the non-negative value with bits b is fsig * 2^fex
pub open spec fn fsig(b: int, ms: int) -> int { if b / p2(ms) == 0 { b % p2(ms) } else { b % p2(ms) + p2(ms) } }
pub open spec fn fex(b: int, ms: int, em: int) -> int { imax(b / p2(ms), 1) - 1 + em }
pub open spec fn fnum(b: int, ms: int, em: int) -> int { fsig(b, ms) * p2p(fex(b, ms, em)) }
pub open spec fn fden(b: int, ms: int, em: int) -> int { p2p(-fex(b, ms, em)) }
pub proof fn lemma_p2p(k: int, s: int) requires s >= k, s >= -k ensures p2p(k) >= 1, s >= 0, s + k >= 0, ({ let c = p2(s - imax(-k, 0)); c >= 1 && p2p(-k) * c == p2(s) && p2p(k) * c == p2(s + k) })
{ lemma_p2_pos(imax(k, 0)); lemma_p2_pos(s - imax(-k, 0)); lemma_p2_0(); lemma_p2_add(imax(-k, 0), s - imax(-k, 0)); lemma_p2_add(imax(k, 0), s - imax(-k, 0)); }
pub proof fn lemma_mul3(a: int, b: int, c: int) ensures a * (b * c) == (a * b) * c, a * b == b * a, (a * b) * c == (a * c) * b { assert(a * (b * c) == (a * b) * c) by(nonlinear_arith); assert((a * b) * c == (a * c) * b) by(nonlinear_arith); assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn lemma_cancel(a: int, b: int, c: int) requires c >= 1 ensures (a * c == b * c) == (a == b), (a * c <= b * c) == (a <= b), (a * c < b * c) == (a < b)
{ assert((a * c <= b * c) == (a <= b)) by(nonlinear_arith) requires c >= 1; assert((a * c < b * c) == (a < b)) by(nonlinear_arith) requires c >= 1; }
pub proof fn lemma_lg_s(n: int, d: int, l: int, s: int) requires s >= l, s >= -l ensures lg(n, d, l) == (d * p2(s + l) <= n * p2(s) && n * p2(s) < 2 * (d * p2(s + l)))
{ lemma_p2p(l, s); let c = p2(s - imax(-l, 0)); lemma_mul3(d, p2p(l), c); lemma_mul3(n, p2p(-l), c); lemma_cancel(d * p2p(l), n * p2p(-l), c); lemma_cancel(n * p2p(-l), 2 * (d * p2p(l)), c); assert((2 * (d * p2p(l))) * c == 2 * ((d * p2p(l)) * c)) by(nonlinear_arith); }
pub proof fn lemma_vis_s(n: int, d: int, m: int, x: int, s: int) requires s >= x, s >= -x ensures vis(n, d, m, x) == (n * p2(s) == m * (d * p2(s + x)))
{ lemma_p2p(x, s); let c = p2(s - imax(-x, 0)); lemma_mul3(n, p2p(-x), c); lemma_mul3(m, d * p2p(x), c); lemma_mul3(d, p2p(x), c); lemma_cancel(n * p2p(-x), m * (d * p2p(x)), c); }
/// rounding depends on the ratio only
pub proof fn lemma_rne_scale(n: int, d: int, k: int) requires n >= 0, d >= 1, k >= 1 ensures rne(n * k, d * k) == rne(n, d)
{ let q = n / d; let r = n % d; lemma_fundamental_div_mod(n, d); lemma_mod_bound(n, d); lemma_cancel(r, d, k); lemma_cancel(2 * r, d, k); lemma_cancel(0, r, k);
  assert(n * k == (d * k) * q + r * k) by(nonlinear_arith) requires n == d * q + r; assert((d * k) * q == q * (d * k)) by(nonlinear_arith); assert((2 * r) * k == 2 * (r * k)) by(nonlinear_arith);
  assert(0 <= r * k) by(nonlinear_arith) requires r >= 0, k >= 1; lemma_cancel(0, d, k); lemma_fundamental_div_mod_converse(n * k, d * k, q, r * k); }
pub proof fn lemma_rne_ratio(n: int, d: int, m: int, e: int) requires n >= 0, d >= 1, m >= 0, e >= 1, n * e == m * d ensures rne(n, d) == rne(m, e)
{ lemma_rne_scale(n, d, e); lemma_rne_scale(m, e, d); lemma_mul3(d, e, 1); }
pub proof fn lemma_rne_s(n: int, d: int, e: int, s: int) requires n >= 0, d >= 1, s >= e, s >= -e ensures rne(n * p2p(-e), d * p2p(e)) == rne(n * p2(s), d * p2(s + e)), d * p2(s + e) >= 1
{ lemma_p2p(e, s); lemma_p2p(-e, s); let c = p2(s - imax(-e, 0)); lemma_mul3(n, p2p(-e), c); lemma_mul3(d, p2p(e), c); assert(n * p2p(-e) >= 0) by(nonlinear_arith) requires n >= 0, p2p(-e) >= 1; assert(d * p2p(e) >= 1) by(nonlinear_arith) requires d >= 1, p2p(e) >= 1;
  lemma_rne_scale(n * p2p(-e), d * p2p(e), c); assert((d * p2p(e)) * c >= 1) by(nonlinear_arith) requires d * p2p(e) >= 1, c >= 1; }
pub proof fn lemma_lg_u(n: int, d: int, l: int, k: int) requires d >= 1, lg(n, d, l), lg(n, d, k) ensures l == k
{ let s = imax(imax(l, -l), imax(k, -k)); lemma_lg_s(n, d, l, s); lemma_lg_s(n, d, k, s); 
  if l < k { lemma_lg_lt(n, d, l, k, s); } if k < l { lemma_lg_lt(n, d, k, l, s); } }
pub proof fn lemma_lg_lt(n: int, d: int, l: int, k: int, s: int) requires d >= 1, l < k, s + l >= 0, n * p2(s) < 2 * (d * p2(s + l)), d * p2(s + k) <= n * p2(s) ensures false
{ lemma_p2_1(s + l); lemma_p2_mono(s + l + 1, s + k); assert(d * p2(s + k) >= d * (2 * p2(s + l))) by(nonlinear_arith) requires p2(s + k) >= 2 * p2(s + l), d >= 1; assert(d * (2 * p2(s + l)) == 2 * (d * p2(s + l))) by(nonlinear_arith); }
pub proof fn lemma_lg_ratio(n: int, d: int, m: int, e: int, l: int) requires d >= 1, e >= 1, n * e == m * d, lg(n, d, l) ensures lg(m, e, l)
{ let x = p2p(l); let y = p2p(-l); assert((d * x) * e <= (n * y) * e) by(nonlinear_arith) requires d * x <= n * y, e >= 1; assert((n * y) * e < (2 * (d * x)) * e) by(nonlinear_arith) requires n * y < 2 * (d * x), e >= 1;
  assert((n * y) * e == (m * y) * d) by(nonlinear_arith) requires n * e == m * d; assert((d * x) * e == (e * x) * d) by(nonlinear_arith); assert((2 * (d * x)) * e == (2 * (e * x)) * d) by(nonlinear_arith); lemma_cancel(e * x, m * y, d); lemma_cancel(m * y, 2 * (e * x), d); }
pub proof fn lemma_rn_ratio(n: int, d: int, m: int, e: int, b: int, ms: int, em: int) requires n >= 0, m >= 0, d >= 1, e >= 1, n * e == m * d, isrn(n, d, b, ms, em) ensures isrn(m, e, b, ms, em)
{ let l = choose|l: int| #[trigger] lg(n, d, l) && b == imin(fenc(rne(n * p2p(-ulp(l, ms, em)), d * p2p(ulp(l, ms, em))), ulp(l, ms, em), ms, em), finf(ms)); lemma_lg_ratio(n, d, m, e, l);
  let u = ulp(l, ms, em); let x = p2p(u); let y = p2p(-u); lemma_p2p(u, imax(u, -u)); lemma_p2p(-u, imax(u, -u)); assert((n * y) * (e * x) == (m * y) * (d * x)) by(nonlinear_arith) requires n * e == m * d; assert(n * y >= 0 && m * y >= 0) by(nonlinear_arith) requires n >= 0, m >= 0, y >= 1; assert(d * x >= 1 && e * x >= 1) by(nonlinear_arith) requires d >= 1, e >= 1, x >= 1;
  lemma_rne_ratio(n * y, d * x, m * y, e * x); }
/// nearest value, from the binade and the rounded significand
pub proof fn lemma_rn_intro(n: int, d: int, l: int, m: int, b: int, ms: int, em: int) requires lg(n, d, l), m == rne(n * p2p(-ulp(l, ms, em)), d * p2p(ulp(l, ms, em))), b == imin(fenc(m, ulp(l, ms, em), ms, em), finf(ms)) ensures isrn(n, d, b, ms, em) { }
/// ... and back
pub proof fn lemma_rn_elim(n: int, d: int, l: int, b: int, ms: int, em: int) requires d >= 1, lg(n, d, l), isrn(n, d, b, ms, em) ensures b == imin(fenc(rne(n * p2p(-ulp(l, ms, em)), d * p2p(ulp(l, ms, em))), ulp(l, ms, em), ms, em), finf(ms))
{ let k = choose|k: int| #[trigger] lg(n, d, k) && b == imin(fenc(rne(n * p2p(-ulp(k, ms, em)), d * p2p(ulp(k, ms, em))), ulp(k, ms, em), ms, em), finf(ms)); lemma_lg_u(n, d, l, k); }
pub proof fn lemma_log2(m: int) -> (t: int) requires m >= 1 ensures t >= 0, p2(t) <= m < 2 * p2(t) decreases m
{ lemma_p2_0(); if m == 1 { 0 } else { let t = lemma_log2(m / 2); lemma_p2_1(t); t + 1 } }
pub open spec fn fmt_ok(ms: int, em: int) -> bool { (ms == 52 && em == -1074) || (ms == 23 && em == -149) }
/// m * 2^x is a value of the format (or the carry of one)
pub open spec fn fits(m: int, x: int, ms: int, em: int) -> bool { (p2(ms) <= m <= 2 * p2(ms) && x >= em) || (0 <= m <= p2(ms) && x == em) }
pub proof fn lemma_p2ms() ensures p2(52) == 0x10_0000_0000_0000, p2(23) == 0x80_0000, p2(53) == 0x20_0000_0000_0000, p2(54) == 0x40_0000_0000_0000, p2(24) == 0x100_0000, p2(25) == 0x200_0000, p2(10) == 1024, p2(7) == 128, p2(27) == 0x800_0000, p2(26) == 0x400_0000 { lemma2_to64(); lemma2_to64_rest(); }
pub proof fn lemma_vis_lg(n: int, d: int, m: int, x: int, t: int) requires d >= 1, t >= 0, p2(t) <= m < 2 * p2(t), vis(n, d, m, x) ensures lg(n, d, x + t)
{ let s = imax(imax(x, -x), imax(x + t, -x - t)); lemma_vis_s(n, d, m, x, s); lemma_lg_s(n, d, x + t, s); lemma_p2_add(s + x, t); let w = p2(s + x); lemma_p2_pos(s + x); assert(d * w >= 1) by(nonlinear_arith) requires d >= 1, w >= 1; let v = d * w; let pt = p2(t);
  assert(d * (w * pt) == pt * v) by(nonlinear_arith) requires v == d * w; assert(pt * v <= m * v) by(nonlinear_arith) requires pt <= m, v >= 1; assert(m * v < (2 * pt) * v) by(nonlinear_arith) requires m < 2 * pt, v >= 1; assert((2 * pt) * v == 2 * (pt * v)) by(nonlinear_arith); }
pub proof fn lemma_vis_2(n: int, d: int, m: int, x: int) ensures vis(n, d, 2 * m, x) == vis(n, d, m, x + 1)
{ let s = imax(x, -x) + 1; lemma_vis_s(n, d, 2 * m, x, s); lemma_vis_s(n, d, m, x + 1, s); lemma_p2_1(s + x); let w = p2(s + x); assert((2 * m) * (d * w) == m * (d * (2 * w))) by(nonlinear_arith); }
pub proof fn lemma_vis_rne(n: int, d: int, m: int, x: int) requires d >= 1, m >= 0, vis(n, d, m, x) ensures rne(n * p2p(-x), d * p2p(x)) == m
{ lemma_p2p(x, imax(x, -x)); let e = d * p2p(x); assert(e >= 1) by(nonlinear_arith) requires d >= 1, p2p(x) >= 1, e == d * p2p(x); assert(m * e == e * m) by(nonlinear_arith); lemma_fundamental_div_mod_converse(n * p2p(-x), e, m, 0); }
pub proof fn lemma_rn_exact(n: int, d: int, m: int, x: int, b: int, ms: int, em: int) requires fmt_ok(ms, em), d >= 1, m >= 1, vis(n, d, m, x), fits(m, x, ms, em), b == imin(fenc(m, x, ms, em), finf(ms)) ensures isrn(n, d, b, ms, em)
{ lemma_p2ms(); let p = p2(ms);
  if m == 2 * p { lemma_vis_2(n, d, p, x); lemma_vis_lg(n, d, p, x + 1, ms); lemma_vis_rne(n, d, p, x + 1); assert((x - em) * p + 2 * p == (x + 1 - em) * p + p) by(nonlinear_arith); lemma_rn_intro(n, d, x + 1 + ms, p, b, ms, em); }
  else { let t = lemma_log2(m); if m >= p { if t < ms { lemma_p2_1(t); lemma_p2_mono(t + 1, ms); } if t > ms { lemma_p2_1(ms); lemma_p2_mono(ms + 1, t); } } else if t >= ms { lemma_p2_mono(ms, t); }
    lemma_vis_lg(n, d, m, x, t); lemma_vis_rne(n, d, m, x); lemma_rn_intro(n, d, x + t, m, b, ms, em); } }
pub proof fn lemma_rn_tiny(n: int, d: int, l: int, ms: int, em: int) requires fmt_ok(ms, em), n >= 1, d >= 1, lg(n, d, l), l < em - 1 ensures isrn(n, d, 0, ms, em)
{ let s = imax(imax(l, -l), imax(em, -em)) + 1; lemma_lg_s(n, d, l, s); lemma_rne_s(n, d, em, s); lemma_p2_mono(s + l + 1, s + em - 1); lemma_p2_1(s + em - 1); lemma_p2_1(s + l); let a = n * p2(s); let c = d * p2(s + em); let w = p2(s + l); let v = p2(s + em - 1); lemma_p2_pos(s);
  assert(a >= 1) by(nonlinear_arith) requires a == n * p2(s), n >= 1, p2(s) >= 1; assert(2 * (d * w) <= d * v) by(nonlinear_arith) requires d >= 1, 2 * w <= v; assert(c == 2 * (d * v)) by(nonlinear_arith) requires c == d * (2 * v); 
  assert(c * 0 == 0 && (em - em) * p2(ms) == 0); lemma_p2ms(); lemma_mul_basics(p2(ms)); lemma_fundamental_div_mod_converse(a, c, 0, a); lemma_rn_intro(n, d, l, 0, 0, ms, em); }
pub proof fn lemma_rn_big(n: int, d: int, l: int, ms: int, em: int) requires fmt_ok(ms, em), n >= 1, d >= 1, lg(n, d, l), l >= 2 - em - ms ensures isrn(n, d, finf(ms), ms, em)
{ lemma_p2ms(); let u = l - ms; let s = l; lemma_lg_s(n, d, l, s); lemma_rne_s(n, d, u, s); let a = n * p2(s); let w = p2(s + u); let c = d * w; lemma_p2_add(s + u, ms); let p = p2(ms);
  assert(d * (w * p) == p * c) by(nonlinear_arith) requires c == d * w; lemma_fundamental_div_mod(a, c); lemma_mod_bound(a, c); let q = a / c; assert(q >= p) by(nonlinear_arith) requires p * c <= a, a == c * q + a % c, a % c < c, c >= 1;
  let m = rne(a, c); assert((u - em) * p >= (2 - em - ms - ms - em) * p) by(nonlinear_arith) requires u >= 2 - em - ms - ms, p >= 0; lemma_rn_intro(n, d, l, m, finf(ms), ms, em); }
pub proof fn lemma_vis_self(m: int, x: int) ensures vis(m * p2p(x), p2p(-x), m, x), p2p(-x) >= 1 { lemma_p2p(-x, imax(x, -x)); assert((m * p2p(x)) * p2p(-x) == m * (p2p(-x) * p2p(x))) by(nonlinear_arith); }
/// the value of the bits of m * 2^x is m * 2^x
pub proof fn lemma_fval(m: int, x: int, b: int, ms: int, em: int) requires fmt_ok(ms, em), fits(m, x, ms, em), b == fenc(m, x, ms, em) ensures vis(fnum(b, ms, em), fden(b, ms, em), m, x), fden(b, ms, em) >= 1, fnum(b, ms, em) >= 0, m > 0 ==> fnum(b, ms, em) > 0
{ lemma_p2ms(); let p = p2(ms); lemma_vis_self(fsig(b, ms), fex(b, ms, em)); lemma_p2p(fex(b, ms, em), imax(fex(b, ms, em), -fex(b, ms, em)));
  let k = x - em; assert(k * p + m == p * k + m) by(nonlinear_arith);
  if m == 2 * p { assert((k + 2) * p + 0 == p * k + m) by(nonlinear_arith) requires m == 2 * p; lemma_fundamental_div_mod_converse(b, p, k + 2, 0); lemma_vis_2(fnum(b, ms, em), fden(b, ms, em), p, x); }
  else if m >= p { assert((k + 1) * p + (m - p) == p * k + m) by(nonlinear_arith); lemma_fundamental_div_mod_converse(b, p, k + 1, m - p); }
  else { assert(k == 0); assert(k * p == 0) by(nonlinear_arith) requires k == 0; lemma_fundamental_div_mod_converse(b, p, 0, m); }
  let fs = fsig(b, ms); let px = p2p(fex(b, ms, em)); assert(fs * px >= 0) by(nonlinear_arith) requires fs >= 0, px >= 1; if m > 0 { assert(fs * px >= 1) by(nonlinear_arith) requires fs >= 1, px >= 1; } }
pub proof fn lemma_vis_ratio(n: int, d: int, a: int, e: int, m: int, x: int) requires vis(n, d, m, x), vis(a, e, m, x) ensures n * e == a * d
{ lemma_p2p(-x, imax(x, -x)); let y = p2p(-x); let z = p2p(x); assert((n * e) * y == (m * (d * z)) * e) by(nonlinear_arith) requires n * y == m * (d * z); assert((a * d) * y == (m * (e * z)) * d) by(nonlinear_arith) requires a * y == m * (e * z);
  assert((m * (d * z)) * e == (m * (e * z)) * d) by(nonlinear_arith); lemma_cancel(n * e, a * d, y); }
pub proof fn lemma_vis_of(n: int, d: int, a: int, e: int, m: int, x: int) requires d >= 1, vis(n, d, m, x), n * e == a * d ensures vis(a, e, m, x)
{ let y = p2p(-x); let z = p2p(x); assert((a * y) * d == (n * y) * e) by(nonlinear_arith) requires n * e == a * d; assert((m * (d * z)) * e == (m * (e * z)) * d) by(nonlinear_arith); lemma_cancel(a * y, m * (e * z), d); }
/// rounding a quotient to a coarser place, from the quotient bits and a sticky remainder
pub proof fn lemma_rne_bits(a: int, b: int, t: int, mm: int, sticky: bool) requires a >= 0, b >= 1, t >= 1, mm == (a / b) / p2(t - 1), sticky == ((a / b) % p2(t - 1) != 0 || a % b != 0)
  ensures rne(a, b * p2(t)) == mm / 2 + (if mm % 2 == 1 && (sticky || (mm / 2) % 2 == 1) { 1int } else { 0 }), (a % (b * p2(t)) == 0) == (!sticky && mm % 2 == 0), b * p2(t) >= 1
{ let k = p2(t - 1); lemma_p2_1(t - 1); lemma_p2_pos(t - 1); let q = a / b; let r = a % b; lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b); lemma_fundamental_div_mod(q, k); lemma_mod_bound(q, k); let w = q % k; let h = mm / 2; let z = mm % 2;
  let bk = b * k; assert(bk >= 1) by(nonlinear_arith) requires bk == b * k, b >= 1, k >= 1; let d = b * p2(t); assert(d == 2 * bk) by(nonlinear_arith) requires d == b * (2 * k), bk == b * k; let lo = b * w + r; assert(0 <= lo < bk) by(nonlinear_arith) requires lo == b * w + r, 0 <= w, w <= k - 1, 0 <= r < b, bk == b * k;
  assert(a == bk * mm + lo) by(nonlinear_arith) requires a == b * q + r, q == k * mm + w, bk == b * k, lo == b * w + r; assert(bk * mm == (2 * bk) * h + bk * z) by(nonlinear_arith) requires mm == 2 * h + z;
  assert((lo == 0) == !sticky) by(nonlinear_arith) requires lo == b * w + r, b >= 1, w >= 0, r >= 0, sticky == (w != 0 || r != 0);
  assert(bk * 0 == 0 && bk * 1 == bk); assert(h * d == d * h) by(nonlinear_arith); lemma_fundamental_div_mod_converse(a, d, h, bk * z + lo); }
pub proof fn lemma_rn_uniq(n: int, d: int, b: int, c: int, ms: int, em: int) requires d >= 1, isrn(n, d, b, ms, em), isrn(n, d, c, ms, em) ensures b == c
{ let l = choose|l: int| #[trigger] lg(n, d, l) && b == imin(fenc(rne(n * p2p(-ulp(l, ms, em)), d * p2p(ulp(l, ms, em))), ulp(l, ms, em), ms, em), finf(ms)); lemma_rn_elim(n, d, l, c, ms, em); }
pub proof fn lemma_vis_mul(n: int, d: int, m: int, x: int, a: int, e: int, k: int, y: int) requires vis(n, d, m, x), vis(a, e, k, y) ensures vis(n * a, d * e, m * k, x + y)
{ let s = imax(imax(x, -x), imax(y, -y)); lemma_vis_s(n, d, m, x, s); lemma_vis_s(a, e, k, y, s); lemma_vis_s(n * a, d * e, m * k, x + y, s + s); lemma_p2_add(s, s); lemma_p2_add(s + x, s + y); let p = p2(s); let u = p2(s + x); let v = p2(s + y);
  assert((n * a) * (p * p) == (n * p) * (a * p)) by(nonlinear_arith); assert((m * k) * ((d * e) * (u * v)) == (m * (d * u)) * (k * (e * v))) by(nonlinear_arith); }
pub proof fn lemma_vis_div(n: int, d: int, m: int, x: int, a: int, e: int, y: int) requires vis(n, d, m, x), vis(a, e, m, y), m >= 1 ensures vis(n * e, d * a, 1, x - y)
{ let s = imax(imax(x, -x), imax(y, -y)); lemma_vis_s(n, d, m, x, s); lemma_vis_s(a, e, m, y, s); lemma_vis_s(n * e, d * a, 1, x - y, s + s + y + imax(x, -x)); lemma_p2_add(s, s + y); lemma_p2_add(s + x, s); let p = p2(s); let u = p2(s + x); let v = p2(s + y); let w = p2(imax(x, -x)); lemma_p2_pos(imax(x, -x));
  assert((n * e) * (p * v) == (n * p) * (e * v)) by(nonlinear_arith); assert((m * (d * u)) * (e * v) == (d * u) * (m * (e * v))) by(nonlinear_arith); assert((d * a) * (u * p) == (d * u) * (a * p)) by(nonlinear_arith);
  lemma_p2_add(s + s + y, imax(x, -x)); lemma_p2_add(s + s + x, imax(x, -x)); assert((n * e) * (p2(s + s + y) * w) == ((n * e) * p2(s + s + y)) * w) by(nonlinear_arith); assert((d * a) * (p2(s + s + x) * w) == ((d * a) * p2(s + s + x)) * w) by(nonlinear_arith); }
pub proof fn lemma_vis_p2(n: int, d: int, m: int, x: int, j: int) requires j >= 0 ensures vis(n, d, m * p2(j), x) == vis(n, d, m, x + j)
{ let s = imax(x, -x) + j; lemma_vis_s(n, d, m * p2(j), x, s); lemma_vis_s(n, d, m, x + j, s); lemma_p2_add(s + x, j); let w = p2(s + x); let p = p2(j); assert((m * p) * (d * w) == m * (d * (w * p))) by(nonlinear_arith); }
pub proof fn lemma_vis_shift(n: int, d: int, m: int, x: int, k: int) requires vis(n, d, m, x) ensures vis(n * p2p(k), d * p2p(-k), m, x + k)
{ lemma_vis_self(1, k); lemma_vis_mul(n, d, m, x, 1 * p2p(k), p2p(-k), 1, k); }
/// the value of a normal
pub proof fn lemma_fnorm(b: int, ms: int, em: int) requires fmt_ok(ms, em), p2(ms) <= b < finf(ms) ensures fsig(b, ms) == b % p2(ms) + p2(ms), fex(b, ms, em) == b / p2(ms) - 1 + em, vis(fnum(b, ms, em), fden(b, ms, em), fsig(b, ms), fex(b, ms, em)), fden(b, ms, em) >= 1, fnum(b, ms, em) >= 1, p2(ms) <= fsig(b, ms) < 2 * p2(ms), lg(fnum(b, ms, em), fden(b, ms, em), fex(b, ms, em) + ms)
{ lemma_p2ms(); let p = p2(ms); lemma_fundamental_div_mod(b, p); lemma_mod_bound(b, p); let q = b / p; assert(q >= 1) by(nonlinear_arith) requires b == p * q + b % p, b % p < p, b >= p, p >= 1; lemma_vis_self(fsig(b, ms), fex(b, ms, em)); let x = fex(b, ms, em); lemma_p2p(x, imax(x, -x)); let f = fsig(b, ms); let g = p2p(x); assert(f * g >= 1) by(nonlinear_arith) requires f >= 1, g >= 1; lemma_vis_lg(fnum(b, ms, em), fden(b, ms, em), f, x, ms); }
/// powers of two in the 64-bit format
pub proof fn lemma_fpow(b: int, k: int) requires -1022 <= k <= 1023, b == (k + 1023) * 0x10_0000_0000_0000 ensures 0 < b < finf(52), vis(fnum(b, 52, -1074), fden(b, 52, -1074), 1, k), fden(b, 52, -1074) >= 1, fnum(b, 52, -1074) >= 1
{ lemma_p2ms(); lemma_fundamental_div_mod_converse(b, 0x10_0000_0000_0000, k + 1023, 0); lemma_fnorm(b, 52, -1074); lemma_vis_p2(fnum(b, 52, -1074), fden(b, 52, -1074), 1, k - 52, 52); }
pub proof fn lemma_rnpow(n: int, d: int, k: int, r: int) requires -1022 <= k <= 1023, d >= 1, vis(n, d, 1, k), isrn(n, d, r, 52, -1074) ensures r == (k + 1023) * 0x10_0000_0000_0000
{ lemma_p2ms(); lemma_vis_p2(n, d, 1, k - 52, 52); lemma_rn_exact(n, d, 0x10_0000_0000_0000, k - 52, (k + 1023) * 0x10_0000_0000_0000, 52, -1074); lemma_rn_uniq(n, d, r, (k + 1023) * 0x10_0000_0000_0000, 52, -1074); }
pub proof fn lemma_mulpow(x: int, j: int, y: int, k: int, r: int) requires vis(fnum(x, 52, -1074), fden(x, 52, -1074), 1, j), vis(fnum(y, 52, -1074), fden(y, 52, -1074), 1, k), fden(x, 52, -1074) >= 1, fden(y, 52, -1074) >= 1, -1022 <= j + k <= 1023, isrn(fnum(x, 52, -1074) * fnum(y, 52, -1074), fden(x, 52, -1074) * fden(y, 52, -1074), r, 52, -1074) ensures r == (j + k + 1023) * 0x10_0000_0000_0000
{ let n = fnum(x, 52, -1074); let d = fden(x, 52, -1074); let a = fnum(y, 52, -1074); let e = fden(y, 52, -1074); lemma_vis_mul(n, d, 1, j, a, e, 1, k); assert(d * e >= 1) by(nonlinear_arith) requires d >= 1, e >= 1; lemma_rnpow(n * a, d * e, j + k, r); }
pub proof fn lemma_divpow(x: int, j: int, y: int, k: int, r: int) requires vis(fnum(x, 52, -1074), fden(x, 52, -1074), 1, j), vis(fnum(y, 52, -1074), fden(y, 52, -1074), 1, k), fden(x, 52, -1074) >= 1, fnum(y, 52, -1074) >= 1, -1022 <= j - k <= 1023, isrn(fnum(x, 52, -1074) * fden(y, 52, -1074), fden(x, 52, -1074) * fnum(y, 52, -1074), r, 52, -1074) ensures r == (j - k + 1023) * 0x10_0000_0000_0000
{ let n = fnum(x, 52, -1074); let d = fden(x, 52, -1074); let a = fnum(y, 52, -1074); let e = fden(y, 52, -1074); lemma_vis_div(n, d, 1, j, a, e, k); assert(d * a >= 1) by(nonlinear_arith) requires d >= 1, a >= 1; lemma_rnpow(n * e, d * a, j - k, r); }
pub proof fn lemma_ldx(b: int, e: int) requires p2(52) <= b < finf(52) ensures ({ let n = fnum(b, 52, -1074) * p2p(e); let d = fden(b, 52, -1074) * p2p(-e); vis(n, d, fsig(b, 52), b / p2(52) - 1075 + e) && lg(n, d, b / p2(52) - 1023 + e) && n >= 1 && d >= 1 })
{ lemma_fnorm(b, 52, -1074); let n = fnum(b, 52, -1074); let d = fden(b, 52, -1074); lemma_vis_shift(n, d, fsig(b, 52), fex(b, 52, -1074), e); lemma_p2p(e, imax(e, -e)); lemma_p2p(-e, imax(e, -e)); let u = p2p(e); let v = p2p(-e); assert(n * u >= 1) by(nonlinear_arith) requires n >= 1, u >= 1; assert(d * v >= 1) by(nonlinear_arith) requires d >= 1, v >= 1; lemma_p2ms();
  lemma_vis_lg(n * u, d * v, fsig(b, 52), b / p2(52) - 1075 + e, 52); }
/// m a power of two, y the significand of b at another exponent: m * y is nearest to b * 2^e if the exponents agree
pub proof fn lemma_ldmul(b: int, e: int, m: int, j: int, y: int, r: int) requires p2(52) <= b < finf(52), p2(52) <= y < finf(52), vis(fnum(m, 52, -1074), fden(m, 52, -1074), 1, j), fden(m, 52, -1074) >= 1, fnum(m, 52, -1074) >= 1, y % p2(52) == b % p2(52), b / p2(52) + e == y / p2(52) + j, isrn(fnum(m, 52, -1074) * fnum(y, 52, -1074), fden(m, 52, -1074) * fden(y, 52, -1074), r, 52, -1074) ensures isrn(fnum(b, 52, -1074) * p2p(e), fden(b, 52, -1074) * p2p(-e), r, 52, -1074)
{ lemma_ldx(b, e); lemma_fnorm(b, 52, -1074); lemma_fnorm(y, 52, -1074); let n = fnum(m, 52, -1074); let d = fden(m, 52, -1074); let a = fnum(y, 52, -1074); let c = fden(y, 52, -1074); let s = fsig(y, 52); lemma_vis_mul(n, d, 1, j, a, c, s, fex(y, 52, -1074)); assert(1 * s == s); assert(n * a >= 1) by(nonlinear_arith) requires n >= 1, a >= 1; assert(d * c >= 1) by(nonlinear_arith) requires d >= 1, c >= 1;
  let nn = fnum(b, 52, -1074) * p2p(e); let dd = fden(b, 52, -1074) * p2p(-e); lemma_vis_ratio(n * a, d * c, nn, dd, s, b / p2(52) - 1075 + e); lemma_rn_ratio(n * a, d * c, nn, dd, r, 52, -1074); }
pub proof fn lemma_f53() ensures forall|x: int| #[trigger] isrn(0x800_0000, 1, x, 52, -1074) ==> x == 0x41a0_0000_0000_0000, forall|x: int| #[trigger] isrn(0x400_0000, 1, x, 52, -1074) ==> x == 0x4190_0000_0000_0000,
  forall|x: int| #[trigger] isrn(fnum(0x41a0_0000_0000_0000, 52, -1074) * fnum(0x4190_0000_0000_0000, 52, -1074), fden(0x41a0_0000_0000_0000, 52, -1074) * fden(0x4190_0000_0000_0000, 52, -1074), x, 52, -1074) ==> x == 0x4340_0000_0000_0000,
  forall|x: int| #[trigger] isrn(fnum(0x3ff0_0000_0000_0000, 52, -1074) * fden(0x4340_0000_0000_0000, 52, -1074), fden(0x3ff0_0000_0000_0000, 52, -1074) * fnum(0x4340_0000_0000_0000, 52, -1074), x, 52, -1074) ==> x == 0x3ca0_0000_0000_0000,
  vis(fnum(0x3ca0_0000_0000_0000, 52, -1074), fden(0x3ca0_0000_0000_0000, 52, -1074), 1, -53), fden(0x3ca0_0000_0000_0000, 52, -1074) >= 1, fnum(0x3ca0_0000_0000_0000, 52, -1074) >= 1, vis(fnum(0x3ff0_0000_0000_0000, 52, -1074), fden(0x3ff0_0000_0000_0000, 52, -1074), 1, 0), fden(0x3ff0_0000_0000_0000, 52, -1074) >= 1, fnum(0x3ff0_0000_0000_0000, 52, -1074) >= 1
{ lemma_p2ms(); lemma_fpow(0x3ca0_0000_0000_0000, -53); lemma_fpow(0x3ff0_0000_0000_0000, 0); lemma_fpow(0x41a0_0000_0000_0000, 27); lemma_fpow(0x4190_0000_0000_0000, 26); lemma_fpow(0x4340_0000_0000_0000, 53); lemma_p2_0();
  lemma_vis_self(1, 0); lemma_vis_p2(1, 1, 1, 0, 27); lemma_vis_p2(1, 1, 1, 0, 26); assert(p2p(0) == 1);
  assert(vis(0x800_0000, 1, 1, 27)) by { lemma_p2p(27, 27); assert(p2p(27) == 0x800_0000); assert(p2p(-27) == 1); }
  assert(vis(0x400_0000, 1, 1, 26)) by { lemma_p2p(26, 26); assert(p2p(26) == 0x400_0000); assert(p2p(-26) == 1); }
  assert forall|x: int| #[trigger] isrn(0x800_0000, 1, x, 52, -1074) implies x == 0x41a0_0000_0000_0000 by { lemma_rnpow(0x800_0000, 1, 27, x); }
  assert forall|x: int| #[trigger] isrn(0x400_0000, 1, x, 52, -1074) implies x == 0x4190_0000_0000_0000 by { lemma_rnpow(0x400_0000, 1, 26, x); }
  assert forall|x: int| #[trigger] isrn(fnum(0x41a0_0000_0000_0000, 52, -1074) * fnum(0x4190_0000_0000_0000, 52, -1074), fden(0x41a0_0000_0000_0000, 52, -1074) * fden(0x4190_0000_0000_0000, 52, -1074), x, 52, -1074) implies x == 0x4340_0000_0000_0000 by { lemma_mulpow(0x41a0_0000_0000_0000, 27, 0x4190_0000_0000_0000, 26, x); }
  assert forall|x: int| #[trigger] isrn(fnum(0x3ff0_0000_0000_0000, 52, -1074) * fden(0x4340_0000_0000_0000, 52, -1074), fden(0x3ff0_0000_0000_0000, 52, -1074) * fnum(0x4340_0000_0000_0000, 52, -1074), x, 52, -1074) implies x == 0x3ca0_0000_0000_0000 by { lemma_divpow(0x3ff0_0000_0000_0000, 0, 0x4340_0000_0000_0000, 53, x); } }
pub proof fn lemma_fbits(x: u64, e: isize) requires x < 0x8000_0000_0000_0000 ensures (x >> 52) & 0x7ff == x / 0x10_0000_0000_0000, x & !(0x7ffu64 << 52) == x % 0x10_0000_0000_0000, 0 <= e < 0x800 ==> ((x & !(0x7ffu64 << 52)) | ((e as u64) << 52)) == x % 0x10_0000_0000_0000 + e * 0x10_0000_0000_0000
{ assert((x >> 52) & 0x7ff == x / 0x10_0000_0000_0000) by(bit_vector) requires x < 0x8000_0000_0000_0000; assert(x & !(0x7ffu64 << 52) == x % 0x10_0000_0000_0000) by(bit_vector) requires x < 0x8000_0000_0000_0000;
  if 0 <= e < 0x800 { let f = e as u64; let y = x % 0x10_0000_0000_0000; assert((y | (f << 52)) == add(y, mul(f, 0x10_0000_0000_0000u64))) by(bit_vector) requires y < 0x10_0000_0000_0000, f < 0x800; } }
pub proof fn lemma_mod_ratio(n: int, d: int, m: int, e: int) requires d >= 1, e >= 1, n * e == m * d ensures (n % d == 0) == (m % e == 0)
{ lemma_fundamental_div_mod(n, d); lemma_fundamental_div_mod(m, e); let k = n / d; let j = m / e;
  if n % d == 0 { assert((e * k) * d == m * d) by(nonlinear_arith) requires n * e == m * d, n == d * k; lemma_cancel(e * k, m, d); lemma_mul3(e, k, 1); lemma_fundamental_div_mod_converse(m, e, k, 0); }
  if m % e == 0 { assert((d * j) * e == n * e) by(nonlinear_arith) requires n * e == m * d, m == e * j; lemma_cancel(d * j, n, e); lemma_mul3(d, j, 1); lemma_fundamental_div_mod_converse(n, d, j, 0); } }
pub proof fn lemma_dd(q: int, i: int, j: int) requires q >= 0, i >= 0, j >= 0 ensures (q / p2(i)) / p2(j) == q / p2(i + j), (q % p2(i + j) == 0) == (q % p2(i) == 0 && (q / p2(i)) % p2(j) == 0)
{ lemma_p2_pos(i); lemma_p2_pos(j); lemma_p2_add(i, j); let a = p2(i); let b = p2(j); lemma_fundamental_div_mod(q, a); lemma_mod_bound(q, a); let h = q / a; let l = q % a; lemma_fundamental_div_mod(h, b); lemma_mod_bound(h, b); let k = h / b; let w = h % b; let z = a * w + l;
  assert(q == (a * b) * k + z) by(nonlinear_arith) requires q == a * h + l, h == b * k + w, z == a * w + l; assert(0 <= z < a * b) by(nonlinear_arith) requires z == a * w + l, 0 <= w, w <= b - 1, 0 <= l < a; lemma_mul3(a * b, k, 1); lemma_fundamental_div_mod_converse(q, a * b, k, z);
  assert((z == 0) == (l == 0 && w == 0)) by(nonlinear_arith) requires z == a * w + l, a >= 1, w >= 0, l >= 0; }
/// scaling by 2^s, then dividing by 2^t more, is scaling by 2^(s - t)
pub proof fn lemma_scale(a: int, b: int, s: int, t: int, u: int) requires u == t - s, t >= 0, a >= 1, b >= 1 ensures (a * p2p(s)) * (b * p2p(u)) == (a * p2p(-u)) * ((b * p2p(-s)) * p2(t)), b * p2p(u) >= 1, a * p2p(-u) >= 1, a * p2p(s) >= 1, b * p2p(-s) >= 1
{ let z = imax(s, -s) + imax(u, -u); lemma_p2p(s, z); lemma_p2p(u, z); lemma_p2p(-s, z); lemma_p2p(-u, z); let c0 = p2(z - imax(-s, 0)); let c1 = p2(z - imax(-u, 0)); lemma_p2_add(z + s, z + u); lemma_p2_add(z, z); lemma_p2_add(z + z, t); let p = p2p(s); let q = p2p(u); let v = p2p(-u); let w = p2p(-s); let x = p2(t); lemma_p2_pos(t);
  assert((p * q) * (c0 * c1) == (p * c0) * (q * c1)) by(nonlinear_arith); assert(((v * w) * x) * (c0 * c1) == ((w * c0) * (v * c1)) * x) by(nonlinear_arith); assert(c0 * c1 >= 1) by(nonlinear_arith) requires c0 >= 1, c1 >= 1; lemma_cancel(p * q, (v * w) * x, c0 * c1);
  assert((a * p) * (b * q) == (a * b) * (p * q)) by(nonlinear_arith); assert((a * v) * ((b * w) * x) == (a * b) * ((v * w) * x)) by(nonlinear_arith); assert(b * q >= 1) by(nonlinear_arith) requires b >= 1, q >= 1; assert(a * v >= 1) by(nonlinear_arith) requires a >= 1, v >= 1; assert(a * p >= 1) by(nonlinear_arith) requires a >= 1, p >= 1; assert(b * w >= 1) by(nonlinear_arith) requires b >= 1, w >= 1; }
/// half of the least value is rounded to zero
pub proof fn lemma_rn_half(n: int, d: int, ms: int, em: int) requires fmt_ok(ms, em), d >= 1, vis(n, d, 1, em - 1) ensures isrn(n, d, 0, ms, em)
{ lemma_vis_pos(n, d, 1, em - 1); lemma_p2_0(); lemma_vis_lg(n, d, 1, em - 1, 0); let s = imax(em, -em) + 1; lemma_vis_s(n, d, 1, em - 1, s); lemma_rne_s(n, d, em, s) ; lemma_p2_1(s + em - 1); let a = n * p2(s); let c = d * p2(s + em); let w = p2(s + em - 1); lemma_p2_pos(s + em - 1); assert(d * (2 * w) == 2 * (d * w)) by(nonlinear_arith); assert(d * w >= 1) by(nonlinear_arith) requires d >= 1, w >= 1; assert(1 * (d * w) == d * w); assert(c == 2 * a);
  lemma_p2ms(); lemma_mul_basics(p2(ms)); lemma_mul_basics(c); lemma_fundamental_div_mod_converse(a, c, 0, a); lemma_rn_intro(n, d, em - 1, 0, 0, ms, em); }
pub proof fn lemma_vis_pos(n: int, d: int, m: int, x: int) requires d >= 1, m >= 1, vis(n, d, m, x) ensures n >= 1
{ lemma_p2p(x, imax(x, -x)); lemma_p2p(-x, imax(x, -x)); let a = p2p(x); let b = p2p(-x); assert(d * a >= 1) by(nonlinear_arith) requires d >= 1, a >= 1; assert(m * (d * a) >= 1) by(nonlinear_arith) requires d * a >= 1, m >= 1; assert(n >= 1) by(nonlinear_arith) requires n * b >= 1, b >= 1; }
/// below the least normal
pub proof fn lemma_rn_small(n: int, d: int, l: int, b: int, ms: int, em: int) requires fmt_ok(ms, em), d >= 1, n >= 1, lg(n, d, l), l < em + ms, isrn(n, d, b, ms, em) ensures 0 <= b <= p2(ms)
{ lemma_rn_elim(n, d, l, b, ms, em); let s = imax(imax(l, -l), imax(em, -em)); lemma_lg_s(n, d, l, s); lemma_rne_s(n, d, em, s); lemma_p2_pos(s); lemma_p2_1(s + l); lemma_p2_mono(s + l + 1, s + em + ms); lemma_p2_add(s + em, ms); let a = n * p2(s); let w = p2(s + em); let c = d * w; let p = p2(ms); let v = p2(s + l); lemma_p2ms();
  assert(a < p * c) by(nonlinear_arith) requires a < 2 * (d * v), 2 * v <= w * p, c == d * w, d >= 1; lemma_fundamental_div_mod(a, c); lemma_mod_bound(a, c); let q = a / c; assert(a >= 0) by(nonlinear_arith) requires a == n * p2(s), n >= 1, p2(s) >= 1; assert(0 <= q < p) by(nonlinear_arith) requires a < p * c, a == c * q + a % c, 0 <= a % c < c, a >= 0, c >= 1; assert((em - em) * p == 0); }
/// m with at most 53 bits, in the 64-bit format
pub proof fn lemma_norm53(m: int, x: int) -> (r: (int, int)) requires 1 <= m <= 0x20_0000_0000_0000 ensures 0x10_0000_0000_0000 <= r.0 < 0x20_0000_0000_0000, x - 52 <= r.1 <= x + 1, forall|n: int, d: int| #![trigger vis(n, d, m, x)] vis(n, d, m, x) == vis(n, d, r.0, r.1)
{ lemma_p2ms(); if m == 0x20_0000_0000_0000 { assert forall|n: int, d: int| #![trigger vis(n, d, m, x)] vis(n, d, m, x) == vis(n, d, 0x10_0000_0000_0000, x + 1) by { lemma_vis_2(n, d, 0x10_0000_0000_0000, x); } (0x10_0000_0000_0000, x + 1) }
  else { let t = lemma_log2(m); if t > 52 { lemma_p2_mono(53, t); } let j = 52 - t; lemma_p2_add(t, j); let p = p2(t); let w = p2(j); lemma_p2_pos(j); assert(p * w <= m * w < 2 * (p * w)) by(nonlinear_arith) requires p <= m < 2 * p, w >= 1; assert forall|n: int, d: int| #![trigger vis(n, d, m, x)] vis(n, d, m, x) == vis(n, d, m * w, x - j) by { lemma_vis_p2(n, d, m, x - j, j); } (m * w, x - j) } }
pub proof fn lemma_fint(m: int, f: int) requires 1 <= m <= 0x20_0000_0000_0000, isrn(m, 1, f, 52, -1074) ensures 0x10_0000_0000_0000 <= f < finf(52), vis(fnum(f, 52, -1074), fden(f, 52, -1074), m, 0), fden(f, 52, -1074) >= 1
{ lemma_p2ms(); lemma_p2_0(); let (k, x) = lemma_norm53(m, 0); assert(vis(m, 1, m, 0)); let b = fenc(k, x, 52, -1074); assert(0x10_0000_0000_0000 <= b < finf(52)) by(nonlinear_arith) requires b == (x + 1074) * 0x10_0000_0000_0000 + k, -52 <= x <= 1, 0x10_0000_0000_0000 <= k < 0x20_0000_0000_0000, finf(52) == 0x7ff0_0000_0000_0000; lemma_rn_exact(m, 1, k, x, b, 52, -1074); lemma_rn_uniq(m, 1, b, f, 52, -1074); lemma_fval(k, x, b, 52, -1074); }
pub proof fn lemma_rn_vis(n: int, d: int, m: int, x: int, b: int, ms: int, em: int) requires n >= 0, m >= 0, d >= 1, vis(n, d, m, x), isrn(n, d, b, ms, em) ensures isrn(m * p2p(x), p2p(-x), b, ms, em)
{ lemma_vis_self(m, x); lemma_vis_ratio(n, d, m * p2p(x), p2p(-x), m, x); lemma_p2p(x, imax(x, -x)); let w = p2p(x); assert(m * w >= 0) by(nonlinear_arith) requires m >= 0, w >= 1; lemma_rn_ratio(n, d, m * p2p(x), p2p(-x), b, ms, em); }
/// what ldexp gives for an integer
pub proof fn lemma_ldint(m: int, f: int, k: int, r: int) requires 1 <= m <= 0x20_0000_0000_0000, isrn(m, 1, f, 52, -1074), isrn(fnum(f, 52, -1074) * p2p(k), fden(f, 52, -1074) * p2p(-k), r, 52, -1074) ensures isrn(m * p2p(k), p2p(-k), r, 52, -1074)
{ lemma_p2ms(); lemma_fint(m, f); lemma_fnorm(f, 52, -1074); lemma_ldx(f, k); lemma_vis_shift(fnum(f, 52, -1074), fden(f, 52, -1074), m, 0, k); lemma_rn_vis(fnum(f, 52, -1074) * p2p(k), fden(f, 52, -1074) * p2p(-k), m, k, r, 52, -1074); }
/// an integer of at most 24 bits times a power of two is not rounded twice
pub proof fn lemma_f32_once(m: int, x: int, r: int, s: int) requires 1 <= m <= 0x100_0000, fits(m, x, 23, -149) || (m >= 0x80_0000 && x < -149), isrn(m * p2p(x), p2p(-x), r, 52, -1074), r == 0 ==> s == 0, r == finf(52) ==> s == finf(23), 0 < r < finf(52) ==> isrn(fnum(r, 52, -1074), fden(r, 52, -1074), s, 23, -149) ensures isrn(m * p2p(x), p2p(-x), s, 23, -149)
{ lemma_p2ms(); lemma_vis_self(m, x); let n = m * p2p(x); let d = p2p(-x); lemma_vis_pos(n, d, m, x); let (k, y) = lemma_norm53(m, x); assert(vis(n, d, k, y)); lemma_vis_lg(n, d, k, y, 52);
  if y >= -1074 { let b = fenc(k, y, 52, -1074); assert((y + 1074) * 0x10_0000_0000_0000 >= 0) by(nonlinear_arith) requires y >= -1074; lemma_rn_exact(n, d, k, y, imin(b, finf(52)), 52, -1074); lemma_rn_uniq(n, d, imin(b, finf(52)), r, 52, -1074);
    if b < finf(52) { lemma_fval(k, y, b, 52, -1074); let a = fnum(b, 52, -1074); let c = fden(b, 52, -1074); lemma_vis_ratio(a, c, n, d, k, y); lemma_rn_ratio(a, c, n, d, s, 23, -149); }
    else { assert(y >= 972) by(nonlinear_arith) requires (y + 1074) * 0x10_0000_0000_0000 + k >= 0x7ff0_0000_0000_0000, k < 0x20_0000_0000_0000; lemma_rn_big(n, d, y + 52, 23, -149); } }
  else { lemma_rn_small(n, d, y + 52, r, 52, -1074); lemma_rn_tiny(n, d, y + 52, 23, -149); if r > 0 { lemma_fval(r, -1074, r, 52, -1074); let a = fnum(r, 52, -1074); let c = fden(r, 52, -1074); let t = lemma_log2(r); if t > 52 { lemma_p2_mono(53, t); } lemma_vis_lg(a, c, r, -1074, t); lemma_rn_tiny(a, c, t - 1074, 23, -149); lemma_rn_uniq(a, c, 0, s, 23, -149); } } }

/// from the rounded significand mn * 2^x to the nearest value of a / b
pub proof fn lemma_quo_end(a: int, b: int, l: int, mn: int, x: int, r: int, exact: bool, ms: int, em: int) requires fmt_ok(ms, em), a >= 1, b >= 1, lg(a, b, l), mn == 0 ==> r == 0, mn >= 1 ==> isrn(mn * p2p(x), p2p(-x), r, ms, em),
    l >= em - 1 ==> { let u = ulp(l, ms, em); let m = rne(a * p2p(-u), b * p2p(u)); ((mn == m && x == u) || (m == 2 * p2(ms) && mn == p2(ms) && x == u + 1)) && fits(mn, x, ms, em) && exact == ((a * p2p(-u)) % (b * p2p(u)) == 0) },
    l < em - 1 ==> p2(ms) <= mn < 2 * p2(ms) && (x == l - ms || (mn == p2(ms) && x == l - ms + 1))
  ensures isrn(a, b, r, ms, em), r <= finf(ms), (r < finf(ms) && fnum(r, ms, em) * b == a * fden(r, ms, em)) == (r != 0 && r < finf(ms) && exact)
{ lemma_p2ms(); let p = p2(ms); lemma_vis_self(mn, x); let n = mn * p2p(x); let d = p2p(-x);
  assert(fmt_ok(ms, em)); lemma_fval(0, em, 0, ms, em); lemma_p2p(em, -em); assert(0 * p2p(em) == 0); assert(fsig(0, ms) == 0); assert(fnum(0, ms, em) == 0) by { assert(0 * p2p(fex(0, ms, em)) == 0); } let d0 = fden(0, ms, em); assert(a * d0 >= 1) by(nonlinear_arith) requires a >= 1, d0 >= 1; assert(0 * b == 0);
  if l < em - 1 { lemma_rn_tiny(a, b, l, ms, em); lemma_vis_pos(n, d, mn, x); 
    if x == l - ms || l < em - 2 { lemma_vis_lg(n, d, mn, x, ms); lemma_rn_tiny(n, d, x + ms, ms, em); } else { lemma_vis_p2(n, d, 1, x, ms); lemma_rn_half(n, d, ms, em); }
    lemma_rn_uniq(n, d, 0, r, ms, em); }
  else { let u = ulp(l, ms, em); let m = rne(a * p2p(-u), b * p2p(u)); let f = fenc(mn, x, ms, em); if m == 2 * p && mn == p && x == u + 1 { assert((u - em) * p + 2 * p == (u + 1 - em) * p + p) by(nonlinear_arith); }
    assert(f == fenc(m, u, ms, em)); lemma_rn_intro(a, b, l, m, imin(f, finf(ms)), ms, em); assert((x - em) * p >= 0) by(nonlinear_arith) requires x >= em, p >= 1;
    if mn >= 1 { lemma_vis_pos(n, d, mn, x); lemma_rn_exact(n, d, mn, x, imin(f, finf(ms)), ms, em); lemma_rn_uniq(n, d, imin(f, finf(ms)), r, ms, em); assert(r != 0);
      if r < finf(ms) { lemma_fval(mn, x, r, ms, em); let g = fnum(r, ms, em); let h = fden(r, ms, em); let aa = a * p2p(-u); let bb = b * p2p(u); lemma_p2p(u, imax(u, -u)); let pu = p2p(u); assert(bb >= 1) by(nonlinear_arith) requires bb == b * pu, b >= 1, pu >= 1; lemma_fundamental_div_mod(aa, bb);
        if exact { let q = aa / bb; lemma_mul3(bb, q, 1); assert(vis(a, b, q, u)); assert(2 * 0 == 0); assert(m == q); if m == 2 * p && x == u + 1 { lemma_vis_2(a, b, p, u); } assert(vis(a, b, mn, x)); lemma_vis_ratio(g, h, a, b, mn, x); }
        else if g * b == a * h { lemma_vis_of(g, h, a, b, mn, x); if x == u + 1 { lemma_vis_2(a, b, p, u); } assert(vis(a, b, m, u)); lemma_mul3(m, bb, 1); lemma_fundamental_div_mod_converse(aa, bb, m, 0); } } }
    else { assert(x == em); assert((x - em) * p == 0) by(nonlinear_arith) requires x == em; assert(f == 0); } } }
pub proof fn lemma_quo_start(a: int, b: int, la: int, lb: int, ms: int) requires la >= 1, lb >= 1, ms >= 0, p2(la - 1) <= a < p2(la), p2(lb - 1) <= b < p2(lb) ensures ({ let e = la - lb; let s = ms + 2 - e; let aa = a * p2p(s); let bb = b * p2p(-s); let q = aa / bb; aa >= 1 && bb >= 1 && p2(ms + 1) <= q < p2(ms + 3) && (q < p2(ms + 2) ==> lg(a, b, e - 1)) && (q >= p2(ms + 2) ==> lg(a, b, e)) }), a >= 1, b >= 1
{ let e = la - lb; let s = ms + 2 - e; let aa = a * p2p(s); let bb = b * p2p(-s); let q = aa / bb; lemma_p2_pos(la - 1); lemma_p2_pos(lb - 1); lemma_scale(a, b, s, ms + 2, e); lemma_scale(a, b, s, ms + 1, e - 1); let z = imax(s, -s); lemma_p2p(s, z); lemma_p2p(-s, z); let c = p2(z - imax(-s, 0)); let g = p2p(s); let f = p2p(-s);
  lemma_p2_add(la - 1, z + s); lemma_p2_add(la, z + s); lemma_p2_add(lb, z); lemma_p2_add(lb - 1, z); lemma_p2_add(lb + z, ms + 1); lemma_p2_add(lb - 1 + z, ms + 3); let la1 = p2(la - 1); let la0 = p2(la); let lb0 = p2(lb); let lb1 = p2(lb - 1); let k1 = p2(ms + 1); let k3 = p2(ms + 3); let k2 = p2(ms + 2); lemma_p2_pos(ms + 1); lemma_p2_pos(ms + 3); lemma_p2_1(ms + 1); lemma_p2_1(ms + 2);
  assert((bb * k1) * c <= aa * c) by(nonlinear_arith) requires aa == a * g, bb == b * f, a >= la1, b <= lb0, (lb0 * (f * c)) * k1 == la1 * (g * c), f >= 1, g >= 1, c >= 1, k1 >= 1;
  assert(aa * c < (bb * k3) * c) by(nonlinear_arith) requires aa == a * g, bb == b * f, a < la0, b >= lb1, (lb1 * (f * c)) * k3 == la0 * (g * c), f >= 1, g >= 1, c >= 1, k3 >= 1;
  lemma_cancel(bb * k1, aa, c); lemma_cancel(aa, bb * k3, c); lemma_fundamental_div_mod(aa, bb); lemma_mod_bound(aa, bb); let r = aa % bb;
  assert(q >= k1) by(nonlinear_arith) requires bb * k1 <= aa, aa == bb * q + r, r < bb, bb >= 1; assert(q < k3) by(nonlinear_arith) requires aa < bb * k3, aa == bb * q + r, 0 <= r, bb >= 1;
  if q < k2 { let y = b * p2p(e - 1); let x = a * p2p(1 - e); assert(p2p(-(e - 1)) == p2p(1 - e)); let w = bb * k1; assert(aa < 2 * w) by(nonlinear_arith) requires aa == bb * q + r, r < bb, q <= k2 - 1, w == bb * k1, k2 == 2 * k1, bb >= 1; assert(w >= 1) by(nonlinear_arith) requires w == bb * k1, bb >= 1, k1 >= 1; assert(y <= x) by(nonlinear_arith) requires aa * y == x * w, aa >= w, w >= 1, y >= 1; assert(x < 2 * y) by(nonlinear_arith) requires aa * y == x * w, aa < 2 * w, w >= 1, y >= 1; }
  else { let y = b * p2p(e); let x = a * p2p(-e); let w = bb * k2; assert(aa < 2 * w) by(nonlinear_arith) requires aa < bb * k3, w == bb * k2, k3 == 2 * k2; assert(aa >= w) by(nonlinear_arith) requires aa == bb * q + r, r >= 0, q >= k2, w == bb * k2, bb >= 1; assert(w >= 1) by(nonlinear_arith) requires w == bb * k2, bb >= 1, k2 >= 1; assert(y <= x) by(nonlinear_arith) requires aa * y == x * w, aa >= w, w >= 1, y >= 1; assert(x < 2 * y) by(nonlinear_arith) requires aa * y == x * w, aa < 2 * w, w >= 1, y >= 1; } }
pub proof fn lemma_quo_mid(a: int, b: int, s: int, t: int, mm: int, sticky: bool) requires a >= 1, b >= 1, t >= 1, ({ let q = (a * p2p(s)) / (b * p2p(-s)); mm == q / p2(t - 1) && sticky == (q % p2(t - 1) != 0 || (a * p2p(s)) % (b * p2p(-s)) != 0) })
  ensures ({ let u = t - s; rne(a * p2p(-u), b * p2p(u)) == mm / 2 + (if mm % 2 == 1 && (sticky || (mm / 2) % 2 == 1) { 1int } else { 0 }) && ((a * p2p(-u)) % (b * p2p(u)) == 0) == (!sticky && mm % 2 == 0) })
{ let u = t - s; lemma_scale(a, b, s, t, u); let aa = a * p2p(s); let bb = b * p2p(-s); lemma_rne_bits(aa, bb, t, mm, sticky); lemma_rne_ratio(aa, bb * p2(t), a * p2p(-u), b * p2p(u)); lemma_mod_ratio(aa, bb * p2(t), a * p2p(-u), b * p2p(u)); }
pub proof fn lemma_fb64(x: u64) ensures x & 1 == x % 2, (x & 2 != 0) == ((x / 2) % 2 == 1), x >> 1 == x / 2, x >> 54 == x / 0x40_0000_0000_0000, x >> 53 == x / 0x20_0000_0000_0000, 1u64 << 54 == 0x40_0000_0000_0000
{ assert(x & 1 == x % 2 && (x & 2 != 0) == ((x / 2) % 2 == 1) && x >> 1 == x / 2 && x >> 54 == x / 0x40_0000_0000_0000 && x >> 53 == x / 0x20_0000_0000_0000 && 1u64 << 54 == 0x40_0000_0000_0000u64) by(bit_vector); }
pub proof fn lemma_fb32(x: u32) ensures x & 1 == x % 2, (x & 2 != 0) == ((x / 2) % 2 == 1), x >> 1 == x / 2, x >> 25 == x / 0x200_0000, x >> 24 == x / 0x100_0000, 1u32 << 25 == 0x200_0000
{ assert(x & 1 == x % 2 && (x & 2 != 0) == ((x / 2) % 2 == 1) && x >> 1 == x / 2 && x >> 25 == x / 0x200_0000 && x >> 24 == x / 0x100_0000 && 1u32 << 25 == 0x200_0000u32) by(bit_vector); }
pub proof fn lemma_fs64(x: u64, k: u64) requires 1 <= k <= 53 ensures (1u64 << k) >= 1, x & (((1u64 << k) - 1) as u64) == x as int % p2(k as int), x >> k == x as int / p2(k as int)
{ lemma_p2_mono(k as int, 53); lemma_p2ms(); lemma_p2_pos(k as int); lemma_u64_shr_is_div(x, k); lemma_u64_shl_is_mul(1, k); lemma_u64_low_bits_mask_is_mod(x, k as nat); }
pub proof fn lemma_fs32(x: u32, k: u32) requires 1 <= k <= 24 ensures (1u32 << k) >= 1, x & (((1u32 << k) - 1) as u32) == x as int % p2(k as int), x >> k == x as int / p2(k as int)
{ lemma_p2_mono(k as int, 24); lemma_p2ms(); lemma_p2_pos(k as int); lemma_u32_shr_is_div(x, k); lemma_u32_shl_is_mul(1, k); lemma_u32_low_bits_mask_is_mod(x, k as nat); }
pub proof fn lemma_len2(s: Seq<u32>) requires canon(s), s.len() > 0, val(s) < 0x1_0000_0000_0000_0000 ensures s.len() <= 2, s.len() == 1 ==> val(s) == s[0], s.len() == 2 ==> val(s) == s[0] + s[1] * 0x1_0000_0000, s.len() == 2 ==> val(s) >= 0x1_0000_0000
{ if s.len() > 2 { let n = s.len() - 1; lemma_step(s, 0, n); lemma_rv_bound(s, 0, n); lemma_pw_add(2, n - 2); lemma_pw_pos(n - 2); lemma_step(s, 0, 0); lemma_step(s, 0, 1); let x = s[n] as int; let p = pw(n); assert(x * p >= p) by(nonlinear_arith) requires x >= 1, p >= 1; let z = pw(n - 2); assert(pw(2) == 0x1_0000_0000_0000_0000); assert(0x1_0000_0000_0000_0000 * z >= 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires z >= 1; }
  if s.len() == 1 { lemma_val1(s); } if s.len() == 2 { lemma_step(s, 0, 0); lemma_step(s, 0, 1); } }
pub open spec fn rnok(n: int, d: int, b: int, f: bool, ms: int, em: int) -> bool { 0 <= b <= finf(ms) && isrn(n, d, b, ms, em) && f == (b < finf(ms) && fnum(b, ms, em) * d == n * fden(b, ms, em)) }
/// the quotient of the scaled operands, before rounding: e0 the difference of the lengths, e the exponent reached, q the quotient, mm its leading bits
pub open spec fn qst(a: int, b: int, e0: int, e: int, mm: int, sticky: bool, ms: int) -> bool { let s = ms + 2 - e0; let q = (a * p2p(s)) / (b * p2p(-s)); e >= e0 && q >= 0 && mm == q / p2(e - e0) && sticky == (q % p2(e - e0) != 0 || (a * p2p(s)) % (b * p2p(-s)) != 0) }
pub proof fn lemma_qst_more(a: int, b: int, e0: int, e: int, mm: int, sticky: bool, ms: int, k: int) requires qst(a, b, e0, e, mm, sticky, ms), k >= 0 ensures qst(a, b, e0, e + k, mm / p2(k), sticky || mm % p2(k) != 0, ms)
{ let s = ms + 2 - e0; let q = (a * p2p(s)) / (b * p2p(-s)); lemma_dd(q, e - e0, k); }
pub proof fn lemma_qst_end(a: int, b: int, e0: int, e: int, mm: int, sticky: bool, ms: int) requires qst(a, b, e0, e, mm, sticky, ms), a >= 1, b >= 1 ensures ({ let u = e - ms - 1; rne(a * p2p(-u), b * p2p(u)) == mm / 2 + (if mm % 2 == 1 && (sticky || (mm / 2) % 2 == 1) { 1int } else { 0 }) && ((a * p2p(-u)) % (b * p2p(u)) == 0) == (!sticky && mm % 2 == 0) })
{ lemma_quo_mid(a, b, ms + 2 - e0, e - e0 + 1, mm, sticky); }
pub proof fn lemma_frombits(x: u64) ensures ({ let m = fmag(x as int, 0x8000_0000_0000_0000); 0 <= m < 0x8000_0000_0000_0000 && x & 4503599627370495u64 == m % 0x10_0000_0000_0000 && (x >> 52u64) < 4096 && (((x >> 52u64) as i64) & 2047i64) == m / 0x10_0000_0000_0000 }), forall|y: u64| y < 0x10_0000_0000_0000 ==> #[trigger] (y | 4503599627370496u64) == y + 0x10_0000_0000_0000, forall|y: u64| #[trigger] (y & 1u64) == y % 2, forall|y: u64| #[trigger] (y >> 1u64) == y / 2
{ let z = x % 0x8000_0000_0000_0000u64; assert(z as int == fmag(x as int, 0x8000_0000_0000_0000)); assert(x & 4503599627370495u64 == z % 0x10_0000_0000_0000u64 && (x >> 52u64) < 4096 && (((x >> 52u64) as i64) & 2047i64) as u64 == z / 0x10_0000_0000_0000u64) by(bit_vector) requires z == x % 0x8000_0000_0000_0000u64; let w = ((x >> 52u64) as i64) & 2047i64; assert(0 <= w) by(bit_vector) requires w == ((x >> 52u64) as i64) & 2047i64;
  assert forall|y: u64| y < 0x10_0000_0000_0000 implies #[trigger] (y | 4503599627370496u64) == y + 0x10_0000_0000_0000 by { assert(y | 4503599627370496u64 == add(y, 0x10_0000_0000_0000u64)) by(bit_vector) requires y < 0x10_0000_0000_0000; }
  assert forall|y: u64| #[trigger] (y & 1u64) == y % 2 by { assert(y & 1u64 == y % 2) by(bit_vector); } assert forall|y: u64| #[trigger] (y >> 1u64) == y / 2 by { assert(y >> 1u64 == y / 2) by(bit_vector); } }
pub proof fn lemma_qsub(n: int, d: int, a: int, b: int, x: int, y: int) requires b >= 1, a * d == n * b, x * b == a * y ensures x * d == n * y
{ assert((x * d) * b == (n * y) * b) by(nonlinear_arith) requires a * d == n * b, x * b == a * y; lemma_cancel(x * d, n * y, b); }
''')
L('fl_ops', r'''
/// floating point values: their IEEE 754 bits; operations as the standard defines them (assumed)
pub open spec fn fmag(b: int, t: int) -> int { if b >= t { b - t } else { b } }
/// order of values: sign and magnitude
pub open spec fn fkey(b: int, t: int) -> int { if b >= t { t - b } else { b } }
#[verifier::external_body] pub fn f64_lt(x: F64, y: F64) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000_0000_0000) <= finf(52) && fmag(y.b as int, 0x8000_0000_0000_0000) <= finf(52) && fkey(x.b as int, 0x8000_0000_0000_0000) < fkey(y.b as int, 0x8000_0000_0000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f64_le(x: F64, y: F64) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000_0000_0000) <= finf(52) && fmag(y.b as int, 0x8000_0000_0000_0000) <= finf(52) && fkey(x.b as int, 0x8000_0000_0000_0000) <= fkey(y.b as int, 0x8000_0000_0000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f64_gt(x: F64, y: F64) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000_0000_0000) <= finf(52) && fmag(y.b as int, 0x8000_0000_0000_0000) <= finf(52) && fkey(x.b as int, 0x8000_0000_0000_0000) > fkey(y.b as int, 0x8000_0000_0000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f64_ge(x: F64, y: F64) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000_0000_0000) <= finf(52) && fmag(y.b as int, 0x8000_0000_0000_0000) <= finf(52) && fkey(x.b as int, 0x8000_0000_0000_0000) >= fkey(y.b as int, 0x8000_0000_0000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f64_eq(x: F64, y: F64) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000_0000_0000) <= finf(52) && fmag(y.b as int, 0x8000_0000_0000_0000) <= finf(52) && fkey(x.b as int, 0x8000_0000_0000_0000) == fkey(y.b as int, 0x8000_0000_0000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f64_ne(x: F64, y: F64) -> (r: bool) ensures r == !(fmag(x.b as int, 0x8000_0000_0000_0000) <= finf(52) && fmag(y.b as int, 0x8000_0000_0000_0000) <= finf(52) && fkey(x.b as int, 0x8000_0000_0000_0000) == fkey(y.b as int, 0x8000_0000_0000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f64_neg(x: F64) -> (r: F64) ensures r.b == (if x.b >= 0x8000_0000_0000_0000 { x.b - 0x8000_0000_0000_0000 } else { x.b + 0x8000_0000_0000_0000 }) { unimplemented!() }
#[verifier::external_body] pub fn f64_abs(x: F64) -> (r: F64) ensures r.b == fmag(x.b as int, 0x8000_0000_0000_0000) { unimplemented!() }
#[verifier::external_body] pub fn f64_copysign(x: F64, y: F64) -> (r: F64) ensures r.b == fmag(x.b as int, 0x8000_0000_0000_0000) + (if y.b >= 0x8000_0000_0000_0000 { 0x8000_0000_0000_0000int } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn f64_is_nan(x: F64) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000_0000_0000) > finf(52)) { unimplemented!() }
#[verifier::external_body] pub fn f64_is_infinite(x: F64) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000_0000_0000) == finf(52)) { unimplemented!() }
#[verifier::external_body] pub fn f64_mul(x: F64, y: F64) -> (r: F64) ensures 0 < x.b < finf(52) && 0 < y.b < finf(52) ==> isrn(fnum(x.b as int, 52, -1074) * fnum(y.b as int, 52, -1074), fden(x.b as int, 52, -1074) * fden(y.b as int, 52, -1074), r.b as int, 52, -1074) { unimplemented!() }
#[verifier::external_body] pub fn f64_div(x: F64, y: F64) -> (r: F64) ensures 0 < x.b < finf(52) && 0 < y.b < finf(52) ==> isrn(fnum(x.b as int, 52, -1074) * fden(y.b as int, 52, -1074), fden(x.b as int, 52, -1074) * fnum(y.b as int, 52, -1074), r.b as int, 52, -1074) { unimplemented!() }
#[verifier::external_body] pub fn f32_lt(x: F32, y: F32) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000) <= finf(23) && fmag(y.b as int, 0x8000_0000) <= finf(23) && fkey(x.b as int, 0x8000_0000) < fkey(y.b as int, 0x8000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f32_le(x: F32, y: F32) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000) <= finf(23) && fmag(y.b as int, 0x8000_0000) <= finf(23) && fkey(x.b as int, 0x8000_0000) <= fkey(y.b as int, 0x8000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f32_gt(x: F32, y: F32) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000) <= finf(23) && fmag(y.b as int, 0x8000_0000) <= finf(23) && fkey(x.b as int, 0x8000_0000) > fkey(y.b as int, 0x8000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f32_ge(x: F32, y: F32) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000) <= finf(23) && fmag(y.b as int, 0x8000_0000) <= finf(23) && fkey(x.b as int, 0x8000_0000) >= fkey(y.b as int, 0x8000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f32_eq(x: F32, y: F32) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000) <= finf(23) && fmag(y.b as int, 0x8000_0000) <= finf(23) && fkey(x.b as int, 0x8000_0000) == fkey(y.b as int, 0x8000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f32_ne(x: F32, y: F32) -> (r: bool) ensures r == !(fmag(x.b as int, 0x8000_0000) <= finf(23) && fmag(y.b as int, 0x8000_0000) <= finf(23) && fkey(x.b as int, 0x8000_0000) == fkey(y.b as int, 0x8000_0000)) { unimplemented!() }
#[verifier::external_body] pub fn f32_neg(x: F32) -> (r: F32) ensures r.b == (if x.b >= 0x8000_0000 { x.b - 0x8000_0000 } else { x.b + 0x8000_0000 }) { unimplemented!() }
#[verifier::external_body] pub fn f32_abs(x: F32) -> (r: F32) ensures r.b == fmag(x.b as int, 0x8000_0000) { unimplemented!() }
#[verifier::external_body] pub fn f32_copysign(x: F32, y: F32) -> (r: F32) ensures r.b == fmag(x.b as int, 0x8000_0000) + (if y.b >= 0x8000_0000 { 0x8000_0000int } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn f32_is_nan(x: F32) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000) > finf(23)) { unimplemented!() }
#[verifier::external_body] pub fn f32_is_infinite(x: F32) -> (r: bool) ensures r == (fmag(x.b as int, 0x8000_0000) == finf(23)) { unimplemented!() }
#[verifier::external_body] pub fn f32_mul(x: F32, y: F32) -> (r: F32) ensures 0 < x.b < finf(23) && 0 < y.b < finf(23) ==> isrn(fnum(x.b as int, 23, -149) * fnum(y.b as int, 23, -149), fden(x.b as int, 23, -149) * fden(y.b as int, 23, -149), r.b as int, 23, -149) { unimplemented!() }
#[verifier::external_body] pub fn f32_div(x: F32, y: F32) -> (r: F32) ensures 0 < x.b < finf(23) && 0 < y.b < finf(23) ==> isrn(fnum(x.b as int, 23, -149) * fden(y.b as int, 23, -149), fden(x.b as int, 23, -149) * fnum(y.b as int, 23, -149), r.b as int, 23, -149) { unimplemented!() }
#[verifier::external_body] pub fn f64_from_u64(x: u64) -> (r: F64) ensures x == 0 ==> r.b == 0, x > 0 ==> isrn(x as int, 1, r.b as int, 52, -1074) { unimplemented!() }
#[verifier::external_body] pub fn f32_from_f64(x: F64) -> (r: F32) ensures x.b == 0 ==> r.b == 0, x.b == finf(52) ==> r.b == finf(23), 0 < x.b < finf(52) ==> isrn(fnum(x.b as int, 52, -1074), fden(x.b as int, 52, -1074), r.b as int, 23, -149) { unimplemented!() }
#[verifier::external_body] pub fn f64_from_f32(x: F32) -> (r: F64) ensures (r.b >= 0x8000_0000_0000_0000) == (x.b >= 0x8000_0000), ({ let a = fmag(x.b as int, 0x8000_0000); let c = fmag(r.b as int, 0x8000_0000_0000_0000); (a < finf(23)) == (c < finf(52)) && (a < finf(23) ==> fnum(a, 23, -149) * fden(c, 52, -1074) == fnum(c, 52, -1074) * fden(a, 23, -149)) }) { unimplemented!() }
''')

F('bigint::util::normalize', 'fl_normalize', props='C18', noheap=True, pure=True,
  ens='0x10_0000_0000_0000 <= x.b < finf(52) ==> r.0.b == x.b && r.1 == 0, r.1 == 0 || r.1 == -52')
F('bigint::util::ldexp', 'fl_ldexp', props='C18', noheap=True, pure=True, req='-0x1000_0000_0000 <= exp <= 0x1000_0000_0000',
  ens='frac.b == 0 ==> r.b == 0, 0x10_0000_0000_0000 <= frac.b < finf(52) ==> isrn(fnum(frac.b as int, 52, -1074) * p2p(exp as int), fden(frac.b as int, 52, -1074) * p2p(-exp), r.b as int, 52, -1074)',
  at={
    'start': 'lemma_p2ms();',
    'else:1': ('bb = frac.b as int', 'ee = exp as int', 'nn = fnum(bb, 52, -1074) * p2p(ee)', 'dd = fden(bb, 52, -1074) * p2p(-ee)', 'nrm = 0x10_0000_0000_0000 <= bb < finf(52)', 'if nrm { lemma_ldx(bb, ee); }'),
    'before fl_normalize:0': 'assert forall|y: u64| #[trigger] (y >> 52) < 4096 by { assert(y >> 52 < 4096) by(bit_vector); } assert forall|y: isize| 0 <= #[trigger] (y & 2047) <= 2047 && (0 <= y <= 2047 ==> (y & 2047) == y) by { assert(0 <= (y & 2047) <= 2047 && (0 <= y <= 2047 ==> (y & 2047) == y)) by(bit_vector); }',
    'then:2': 'if nrm { lemma_fbits(x, 0); assert(exp_1 == bb / p2(52) - 1023 + ee); lemma_rn_tiny(nn, dd, exp_1 as int, 52, -1074); }',
    'then:3': 'if nrm { lemma_fbits(x, 0); assert(exp_1 == bb / p2(52) - 1023 + ee); lemma_rn_big(nn, dd, exp_1 as int, 52, -1074); }',
    'else:3': ('ex = exp_1 as int', 'lemma_f53(); if nrm { lemma_fbits(x, 0); assert(exp_1 == bb / p2(52) - 1023 + ee); }'),
    'elseend:3': 'if nrm { lemma_fbits(x, (exp_1 + bias) as isize); let j = if ex < -1022 { -53int } else { 0 }; assert(exp_1 == ex - j); let y = x_2 as int; lemma_fundamental_div_mod_converse(y, 0x10_0000_0000_0000, exp_1 + bias, bb % 0x10_0000_0000_0000); assert(y == bb % 0x10_0000_0000_0000 + (exp_1 + bias) * 0x10_0000_0000_0000); lemma_mod_bound(bb, p2(52)); assert(p2(52) <= y < finf(52)) by(nonlinear_arith) requires y == bb % 0x10_0000_0000_0000 + (exp_1 + bias) * 0x10_0000_0000_0000, 1 <= exp_1 + bias <= 2046, 0 <= bb % 0x10_0000_0000_0000 < 0x10_0000_0000_0000, p2(52) == 0x10_0000_0000_0000, finf(52) == 0x7ff0_0000_0000_0000; assert forall|r: int| #[trigger] isrn(fnum(m.b as int, 52, -1074) * fnum(x_2 as int, 52, -1074), fden(m.b as int, 52, -1074) * fden(x_2 as int, 52, -1074), r, 52, -1074) implies isrn(nn, dd, r, 52, -1074) by { lemma_ldmul(bb, ee, m.b as int, j, y, r); } }'})



def _QUO(ms, em, w):
    W = 'u%d' % w; D = em + ms + 1; o = 1 if w == 64 else 0; q = dict(ms=ms, em=em, W=W, w=w, D=D, s2=ms + 2, s1=ms + 1, P='0x%x' % (1 << ms), P2='0x%x' % (2 << ms), P4='0x%x' % (4 << ms))
    f = lambda t: t % q
    return dict(
      req='cn(H, a), cn(H, b), !na(H, a), !na(H, b), nv(H, b) >= 1',
      ens=f('ex(O, H), nv(O, a) == 0 ==> r.0.b == 0 && r.1, nv(O, a) > 0 ==> rnok(nv(O, a), nv(O, b), r.0.b as int, r.1, %(ms)d, %(em)d)'),
      at={
       'start': ('A = nv(h0, a)', 'B = nv(h0, b)', f('lemma_p2ms(); lemma_p2_0(); lemma_p2_1(0); lemma_p2_1(54); assert forall|x: %(W)s| #![trigger x & 1] #![trigger x >> 1%(W)s] #![trigger x >> %(s2)d%(W)s] #![trigger x >> %(s1)d%(W)s] (x & 1 == x %% 2 && (x & 2 != 0) == ((x / 2) %% 2 == 1) && x >> 1%(W)s == x / 2 && x >> %(s2)d%(W)s == x / %(P4)s && x >> %(s1)d%(W)s == x / %(P2)s && 1%(W)s << %(s2)d == %(P4)s) by { lemma_fb%(w)d(x); }')),
       'fi:4': ('e0 = exp as int', f('s0 = %(s2)d - e0'), 'la = alen as int', 'lb = blen as int', 'aa = A * p2p(s0)', 'bb = B * p2p(-s0)', 'Q = aa / bb', 'X = aa % bb', f('assert(nv(H, a2) == aa && nv(H, b2) == bb) by { assert(A * 1 == A && B * 1 == B); } lemma_quo_start(A, B, la, lb, %(ms)d); lemma_fundamental_div_mod(aa, bb); lemma_mod_bound(aa, bb);')),
       'after nat_rem:0': f('assert(nv(H, nat_div_0) == Q); assert(nv(H, nat_rem_0) == X); lemma_len2(H[[nat_div_0]]); assert forall|x: u32, y: u32| (#[trigger] (x as u64 | (y as u64) << 32)) == x + y * 0x1_0000_0000 by { assert((x as u64 | (y as u64) << 32) == x as u64 + (y as u64) * 0x1_0000_0000) by(bit_vector); }'),
       'fi:%d' % (5 + o): f('lemma_qst_more(A, B, e0, e0, Q, X != 0, %(ms)d, 1); assert(qst(A, B, e0, e0, Q, X != 0, %(ms)d)); assert(qst(A, B, e0, exp as int, mantissa as int, is_have_rem, %(ms)d)); assert(lg(A, B, exp - 1));'),
       'fi:%d' % (7 + o): ('E1 = exp as int', 'M1 = mantissa as int', 'S1 = is_have_rem', 'assert(true);'),
       'then:%d' % (8 + o): f('lemma_fs%(w)d(mantissa, (%(D)d - exp) as %(W)s);'),
       'fi:%d' % (8 + o): ('E2 = exp as int', 'M2 = mantissa as int', 'S2 = is_have_rem', f('if E1 != E2 || (E1 <= %(D)d - 1 && E1 >= %(em)d) { let k = %(D)d - E1; lemma_qst_more(A, B, e0, E1, M1, S1, %(ms)d, k); lemma_p2_1(k - 1); let pk = p2(k); lemma_p2_pos(k - 1); lemma_fundamental_div_mod(M1, pk); lemma_mod_bound(M1, pk); assert(0 <= M2 && 2 * M2 <= M1) by(nonlinear_arith) requires M1 == pk * M2 + M1 %% pk, 0 <= M1 %% pk < pk, pk >= 2, M1 >= 0; } assert(qst(A, B, e0, E2, M2, S2, %(ms)d)); lemma_qst_end(A, B, e0, E2, M2, S2, %(ms)d);')),
       'before fl_ldexp:0': ('mn = mantissa as int', 'kk = exp - msize1', 'assert forall|f: int| #[trigger] isrn(mn, 1, f, 52, -1074) && mn >= 1 implies 0x10_0000_0000_0000 <= f < finf(52) by { lemma_fint(mn, f); } assert forall|f: int, r: int| #[trigger] isrn(mn, 1, f, 52, -1074) && mn >= 1 && #[trigger] isrn(fnum(f, 52, -1074) * p2p(kk), fden(f, 52, -1074) * p2p(-kk), r, 52, -1074) implies isrn(mn * p2p(kk), p2p(-kk), r, 52, -1074) by { lemma_ldint(mn, f, kk, r); }'),
       'ret:1': f(('if mn >= 1 { lemma_f32_once(mn, kk, fl_ldexp_0.b as int, f.b as int); } ' if w == 32 else '') + 'lemma_quo_end(A, B, E1 - 1, mn, kk, f.b as int, exact, %(ms)d, %(em)d);'),
      })
F(RAT + 'quo_to_f64', 'rat_quo64', props='C18', **_QUO(52, -1074, 64))
F(RAT + 'quo_to_f32', 'rat_quo32', props='C18', **_QUO(23, -149, 32))

def _TO(ms, em, M):
    q = dict(ms=ms, em=em, M=M); f = lambda t: t % q
    return dict(req='cq(H, slf)', ens=f('ex(O, H), nq(O, slf) ==> r.0.b != %(M)s && fmag(r.0.b as int, %(M)s) > finf(%(ms)d) && !r.1, !nq(O, slf) && qn(O, slf) == 0 ==> r.0.b == 0 && r.1, !nq(O, slf) && qn(O, slf) != 0 ==> (r.0.b >= %(M)s) == (qn(O, slf) < 0) && rnok(ab(qn(O, slf)), qd(O, slf), fmag(r.0.b as int, %(M)s), r.1, %(ms)d, %(em)d)'))
F(RAT + 'to_f64', 'rat_to_f64', props='C18 C07', **_TO(52, -1074, '0x8000_0000_0000_0000'))
F(RAT + 'to_f32', 'rat_to_f32', props='C18 C07', **_TO(23, -149, '0x8000_0000'))

F(RAT + 'from_f64', 'rat_from_f64', props='C18 C07 C17', ens='ex(O, H), r.a.nat >= O.len(), r.b.nat >= O.len(), cq(H, r), nq(H, r) == (fmag(f.b as int, 0x8000_0000_0000_0000) >= finf(52)), !nq(H, r) ==> qis(H, r, (if f.b >= 0x8000_0000_0000_0000 { -1int } else { 1 }) * fnum(fmag(f.b as int, 0x8000_0000_0000_0000), 52, -1074), fden(fmag(f.b as int, 0x8000_0000_0000_0000), 52, -1074)), fden(fmag(f.b as int, 0x8000_0000_0000_0000), 52, -1074) >= 1',
  at={'start': ('fm = fmag(f.b as int, 0x8000_0000_0000_0000)', 'n = fnum(fm, 52, -1074)', 'd = fden(fm, 52, -1074)', 'lemma_p2ms(); lemma_p2_0(); lemma_frombits(f.b); lemma_vis_self(fsig(fm, 52), fex(fm, 52, -1074)); lemma_fundamental_div_mod(fm, p2(52)); lemma_mod_bound(fm, p2(52));'),
      'before shl_inner:0': ('av = mantissa as int', 'assert(cn(H, b.nat));'), 'before shl_inner:1': 'assert(cn(H, a.nat));',
      'before rat_norm:0': ('za = bv(H, z.a)', 'zb = nv(H, z.b.nat)', 'sg = if f.b >= 0x8000_0000_0000_0000 { -1int } else { 1 }', 'zn = nv(H, z.a.nat)', 'mi = mantissa as int', 'lemma_p2_pos(s as int); let p = p2(s as int); if shift > 0 { assert(zn == mi); assert(zb == 1 * p); assert(n * p == mi * (d * 1)); assert(zn * d == n * zb); } else { assert(zn == mi * p); assert(zb == 1); assert(n * 1 == mi * (d * p)); assert(zn * d == n * zb) by(nonlinear_arith) requires zn == mi * p, zb == 1, n * 1 == mi * (d * p); } if fm == 0 { assert(n == 0) by { assert(0 * p2p(fex(0, 52, -1074)) == 0); } assert((sg * n) * zb == 0); assert(0 * p == 0); assert(0 * d == 0); } assert(fm < finf(52)); assert(-1 * zn == -zn && 1 * zn == zn); if fm != 0 && f.b >= 0x8000_0000_0000_0000 { assert(z.a.sign == BISign::Negative); } else { assert(z.a.sign != BISign::Negative); assert(za == zn); } assert(za == sg * zn); assert((sg * zn) * d == (sg * n) * zb) by(nonlinear_arith) requires zn * d == n * zb;'),
      'after rat_norm:0': 'lemma_qsub(sg * n, d, za, zb, qn(H, z), qd(H, z));'},
  loops={0: dict(inv='h@ == h0, vis(n, d, mantissa as int, -shift), -1000 <= shift <= 1074, mantissa < 0x20_0000_0000_0000, fm == fmag(f.b as int, 0x8000_0000_0000_0000), n == fnum(fm, 52, -1074), d == fden(fm, 52, -1074), d >= 1, (mantissa == 0) == (fm == 0)', dec='shift', ls='lemma_frombits(f.b); if mantissa % 2 == 0 { lemma_vis_2(n, d, mantissa as int / 2, -shift); }')})
_FF = "ex(O, H), r.a.nat >= O.len(), r.b.nat >= O.len(), cq(H, r), nq(H, r) == (fmag(M as int, T) >= finf(MS)), !nq(H, r) ==> qis(H, r, (if M >= T { -1int } else { 1 }) * fnum(fmag(M as int, T), MS, EM), fden(fmag(M as int, T), MS, EM)), fden(fmag(M as int, T), MS, EM) >= 1"
F(R + 'core::convert::From<f64>>::from', 'rat_of_f64', props='C18 C07 C17', ens=_FF.replace('MS', '52').replace('M ', 'f.b ').replace('T', '0x8000_0000_0000_0000').replace('EM', '-1074'))
F(R + 'core::convert::From<f32>>::from', 'rat_of_f32', props='C18 C07 C17', ens=_FF.replace('MS', '23').replace('M ', 'f.b ').replace('T', '0x8000_0000').replace('EM', '-149'),
  at={'ret': 'lemma_p2ms(); let m = fmag(f.b as int, 0x8000_0000); assert(m < 0x8000_0000); lemma_p2p(-fex(m, 23, -149), 400); let n = fnum(m, 23, -149); let d = fden(m, 23, -149); let sg = if f.b >= 0x8000_0000 { -1int } else { 1 }; let R = rat_from_f64_0; assert forall|c: int| m < finf(23) && n * #[trigger] fden(c, 52, -1074) == fnum(c, 52, -1074) * d && fden(c, 52, -1074) >= 1 && qis(H, R, sg * fnum(c, 52, -1074), fden(c, 52, -1074)) implies qis(H, R, sg * n, d) by { let a = fnum(c, 52, -1074); let b = fden(c, 52, -1074); assert((sg * a) * d == (sg * n) * b) by(nonlinear_arith) requires n * b == a * d; lemma_qsub(sg * n, d, sg * a, b, qn(H, R), qd(H, R)); }'})
L('lemma_cfind', '''
pub proof fn lemma_cfind(s: Seq<char>, c: char) ensures cfind(s, c) < s.len(), cfind(s, c) >= 0 ==> s[cfind(s, c)] == c, forall|j: int| 0 <= j < (if cfind(s, c) < 0 { s.len() as int } else { cfind(s, c) }) ==> #[trigger] s[j] != c decreases s.len()
{ if s.len() > 0 && s[0] != c { let t = s.skip(1); lemma_cfind(t, c); assert forall|j: int| 0 <= j < (if cfind(s, c) < 0 { s.len() as int } else { cfind(s, c) }) implies #[trigger] s[j] != c by { if j > 0 { assert(t[j - 1] == s[j]); } } } }
/// an integer is written in the text; which
pub open spec fn zok(s: Seq<char>) -> bool { strim(s).len() > 0 && psok(zrest(s)) && !pnan(zrest(s)) }
pub open spec fn zval(s: Seq<char>) -> int { if zneg(s) { -pval(zrest(s)) } else { pval(zrest(s)) } }
''')
F(R + 'core::str::traits::FromStr>::from_str', 'rat_from_str', props='C17 C12 C07 C25',
  ens="""ex(O, H), r is Ok ==> r->Ok_0.a.nat >= O.len() && r->Ok_0.b.nat >= O.len() && cq(H, r->Ok_0), ({ let t = strim(s@); let k = cfind(t, '/'); if cfind(t, '.') >= 0 { r is Ok == (fparse(t) is Ok && fmag(fparse(t)->Ok_0.b as int, 0x8000_0000_0000_0000) <= finf(52)) && (r is Ok ==> ({ let b = fparse(t)->Ok_0.b; let m = fmag(b as int, 0x8000_0000_0000_0000); nq(H, r->Ok_0) == (m == finf(52)) && (m < finf(52) ==> qis(H, r->Ok_0, (if b >= 0x8000_0000_0000_0000 { -1int } else { 1 }) * fnum(m, 52, -1074), fden(m, 52, -1074))) })) }
    else if k >= 0 { r is Ok == (zok(t.take(k)) && zok(t.skip(k + 1)) && zval(t.skip(k + 1)) != 0) && (r is Ok ==> !nq(H, r->Ok_0) && qis(H, r->Ok_0, zval(t.take(k)), zval(t.skip(k + 1)))) }
    else { r is Ok == zok(t) && (r is Ok ==> !nq(H, r->Ok_0) && qis(H, r->Ok_0, zval(t), 1)) } })""",
  at={'start': "let t = strim(s@); lemma_cfind(t, '/'); let k = cfind(t, '/'); if k >= 0 { assert(bpos(t, k + 1) == bpos(t, k) + 1); }", 'before rat_norm:0': ('za = bv(H, z.a)', 'zb = nv(H, z.b.nat)', 'assert(true);'),
  'after rat_norm:0': 'let x = qn(H, z); let y = qd(H, z); assert(x * (-zb) == -(x * zb)) by(nonlinear_arith); assert((-za) * y == -(za * y)) by(nonlinear_arith);'})
