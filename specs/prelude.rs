// ---- representation of the crate's memory and numbers; everything here is verified unless marked external_body
global size_of usize == 8;
pub struct Heap { pub m: Vec<Vec<u32>> }
#[derive(Clone, Copy)] pub struct Sl { pub c: usize, pub lo: usize, pub hi: usize }
#[derive(Clone, Copy)] pub struct Ptr { pub c: usize, pub o: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum Ordering { Less, Equal, Greater }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum BISign { Negative, Natural }
#[derive(Clone, Copy)] pub struct BigInt { pub nat: usize, pub sign: BISign }
#[derive(Clone, Copy)] pub struct Rat { pub a: BigInt, pub b: BigInt }
#[derive(Clone, Copy)] pub struct Err { pub e: u8 }
pub fn rerr<T, E>(r: Result<T, E>) -> (x: E) requires r is Err ensures r == Result::<T, E>::Err(x) { match r { Ok(_) => unreached(), Err(x) => x } }
#[verifier::external_body] pub fn any_usize() -> (r: usize) { unimplemented!() }
/// a source of seeds: what its one draw yields
#[derive(Clone, Copy)] pub struct Sd { pub ok: Ghost<bool>, pub v: Ghost<int> }
pub fn rok<T>(r: Result<T, Err>) -> (x: T) requires r is Ok ensures r == Ok::<T, Err>(x) { match r { Ok(x) => x, Err(_) => unreached() } }
pub fn ouw<T>(r: Option<T>) -> (x: T) requires r is Some ensures r == Some(x) { match r { Some(x) => x, None => unreached() } }
/// a source of random words: any sequence of results (src) read from position pos
pub struct Rng { pub src: Ghost<spec_fn(int) -> Result<u32, Err>>, pub pos: Ghost<int> }
impl Rng {
  #[verifier::external_body]
  pub fn gen(&mut self) -> (r: Result<u32, Err>)
    ensures final(self).src@ == old(self).src@, final(self).pos@ == old(self).pos@ + 1, r == (old(self).src@)(old(self).pos@)
  { unimplemented!() }
}
/// a text: its characters
#[derive(Clone, Copy)] pub struct Str { pub g: Ghost<Seq<char>> }
impl Str { pub open spec fn view(&self) -> Seq<char> { self.g@ } }
pub uninterp spec fn is_ws(c: char) -> bool;
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn strim(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
pub open spec fn ctrim(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { ctrim(s.skip(1), c) } else { s } }
#[verifier::external_body] pub fn str_chars(s: Str) -> (r: usize) ensures r == s@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
#[verifier::external_body] pub fn str_len(s: Str) -> (r: usize) ensures r >= s@.len(), r <= 0x7fff_ffff_ffff_ffff, r == 0 <==> s@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn str_is_empty(s: Str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn str_at(s: Str, i: usize) -> (r: char) requires i < s@.len() ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn str_trim(s: Str) -> (r: Str) ensures r@ == strim(s@) { unimplemented!() }
#[verifier::external_body] pub fn str_trim_start(s: Str, c: char) -> (r: Str) ensures r@ == ctrim(s@, c) { unimplemented!() }
/// bytes of a character in UTF-8; of the first k characters
pub open spec fn ulen(c: char) -> int { if c as u32 <= 0x7f { 1 } else if c as u32 <= 0x7ff { 2 } else if c as u32 <= 0xffff { 3 } else { 4 } }
pub open spec fn bpos(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { bpos(s, k - 1) + ulen(s[k - 1]) } }
/// byte i starts a character (or ends the text)
pub open spec fn bat(s: Seq<char>, i: int) -> bool { (0 <= i <= s.len() && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) as u32 <= 0x7f) || exists|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == i }
/// first occurrence of a character
pub open spec fn cfind(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s[0] == c { 0 } else { let r = cfind(s.skip(1), c); if r < 0 { -1 } else { r + 1 } } }
/// &s[i..]; the index counts bytes
#[verifier::external_body] pub fn str_from(s: Str, i: usize) -> (r: Str) requires bat(s@, i as int) ensures i <= s@.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] s@[j]) as u32 <= 0x7f) ==> r@ == s@.skip(i as int), forall|k: int| 0 <= k <= s@.len() && #[trigger] bpos(s@, k) == i ==> r@ == s@.skip(k) { unimplemented!() }
#[verifier::external_body] pub fn str_upto(s: Str, i: usize) -> (r: Str) requires bat(s@, i as int) ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] bpos(s@, k) == i ==> r@ == s@.take(k) { unimplemented!() }
#[verifier::external_body] pub fn str_find(s: Str, c: char) -> (r: Option<usize>) ensures r is Some == (cfind(s@, c) >= 0), r is Some ==> r->Some_0 < 0x7fff_ffff_ffff_ffff && r->Some_0 == bpos(s@, cfind(s@, c)) { unimplemented!() }
/// f64::from_str: the value std reads in a text, if any (not specified)
pub uninterp spec fn fparse(s: Seq<char>) -> Result<F64, Err>;
#[verifier::external_body] pub fn str_f64(s: Str) -> (r: Result<F64, Err>) ensures r == fparse(s@) { unimplemented!() }
/// the digit d; the digits of n without leading zeros; its last w digits
pub open spec fn dch(d: int, up: bool) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else if d == 9 { '9' }
  else if up { if d == 10 { 'A' } else if d == 11 { 'B' } else if d == 12 { 'C' } else if d == 13 { 'D' } else if d == 14 { 'E' } else { 'F' } } else { if d == 10 { 'a' } else if d == 11 { 'b' } else if d == 12 { 'c' } else if d == 13 { 'd' } else if d == 14 { 'e' } else { 'f' } } }
pub open spec fn num(n: int, b: int, up: bool) -> Seq<char> decreases n via num_dec { if n < b || b < 2 { seq![dch(n, up)] } else { num(n / b, b, up).push(dch(n % b, up)) } }
#[via_fn] proof fn num_dec(n: int, b: int, up: bool) { if !(n < b || b < 2) { lemma_div_decreases(n, b); lemma_div_pos_is_pos(n, b); } }
pub open spec fn npad(n: int, b: int, up: bool, w: int) -> Seq<char> decreases w { if w <= 0 { Seq::empty() } else { npad(n / b, b, up, w - 1).push(dch(n % b, up)) } }
/// std's text of an unsigned integer, zero padded to w digits
#[verifier::external_body] pub fn fmt_int(x: u64, b: Ghost<int>, up: Ghost<bool>, w: Ghost<int>) -> (r: Str) ensures r@ == (if num(x as int, b@, up@).len() >= w@ { num(x as int, b@, up@) } else { npad(x as int, b@, up@, w@) }) { unimplemented!() }
/// a Formatter: the flag `#` and the text written
pub struct Fm { pub alt: bool, pub out: Ghost<Seq<char>> }
pub fn fm_new(alt: bool) -> (r: Fm) ensures r.alt == alt, r.out@ == Seq::<char>::empty() { Fm { alt, out: Ghost(Seq::empty()) } }
pub fn fm_text(f: &Fm) -> (r: Str) ensures r@ == f.out@ { Str { g: f.out } }
pub fn fm_write(f: &mut Fm, s: Str) -> (r: Result<(), Err>) ensures r is Ok, final(f).alt == old(f).alt, final(f).out@ == old(f).out@ + s@ { f.out = Ghost(f.out@ + s@); Ok(()) }
#[verifier::external_body] pub fn vreverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
pub fn str_lit(s: Ghost<Seq<char>>) -> (r: Str) ensures r@ == s@ { Str { g: s } }
pub fn str_push(s: Str, c: char) -> (r: Str) ensures r@ == s@.push(c) { Str { g: Ghost(s@.push(c)) } }
pub fn str_add(s: Str, t: Str) -> (r: Str) ensures r@ == s@ + t@ { Str { g: Ghost(s@ + t@) } }
pub fn str_rev(s: Str) -> (r: Str) ensures r@ == s@.reverse() { Str { g: Ghost(s@.reverse()) } }
pub open spec fn sjoin(v: Seq<Str>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { sjoin(v.drop_last()) + v.last()@ } }
pub fn str_join(v: &Vec<Str>) -> (r: Str) ensures r@ == sjoin(v@) { Str { g: Ghost(sjoin(v@)) } }
pub fn char_is_ascii_digit(c: char) -> (r: bool) ensures r == (0x30 <= c as u32 <= 0x39) { 0x30 <= c as u32 && c as u32 <= 0x39 }
pub fn char_is_ascii_hexdigit(c: char) -> (r: bool) ensures r == (0x30 <= c as u32 <= 0x39 || 0x41 <= c as u32 <= 0x46 || 0x61 <= c as u32 <= 0x66) { let x = c as u32; 0x30 <= x && x <= 0x39 || 0x41 <= x && x <= 0x46 || 0x61 <= x && x <= 0x66 }
/// stands for the allocator refusing to grow a buffer beyond 2^32 words (16 GiB)
#[verifier::external_body] pub fn oom() ensures false { panic!() }
pub fn vpanic() requires false { }
pub fn chk(b: bool) requires b { }
#[verifier::external_body] pub fn zpanic() ensures false { panic!() }
pub fn zchk(b: bool) ensures b { if !b { zpanic(); } }
pub const MAXV: usize = 0x1_0000_0000;
pub type Hp = Seq<Seq<u32>>;
impl Heap {
  pub open spec fn view(&self) -> Hp { Seq::new(self.m@.len(), |i: int| self.m@[i]@) }
  pub fn len(&self, c: usize) -> (r: usize) requires c < self@.len() ensures r == self@[c as int].len(), r <= MAXV { if self.m[c].len() > MAXV { oom(); } self.m[c].len() }
  pub fn get(&self, c: usize, i: usize) -> (r: u32) requires c < self@.len(), i < self@[c as int].len() ensures r == self@[c as int][i as int] { self.m[c][i] }
  pub fn set(&mut self, c: usize, i: usize, x: u32)
    requires c < old(self)@.len(), i < old(self)@[c as int].len()
    ensures final(self)@ == old(self)@.update(c as int, old(self)@[c as int].update(i as int, x))
  { self.m[c][i] = x; assert(self@ =~= old(self)@.update(c as int, old(self)@[c as int].update(i as int, x))); }
  pub fn push(&mut self, c: usize, x: u32)
    requires c < old(self)@.len(),
    ensures final(self)@ == old(self)@.update(c as int, old(self)@[c as int].push(x)), final(self)@[c as int].len() <= MAXV
  { if self.m[c].len() >= MAXV { oom(); } self.m[c].push(x); assert(self@ =~= old(self)@.update(c as int, old(self)@[c as int].push(x))); }
  fn rawpush(&mut self, c: usize, x: u32)
    requires c < old(self)@.len(),
    ensures final(self)@ == old(self)@.update(c as int, old(self)@[c as int].push(x))
  { self.m[c].push(x); assert(self@ =~= old(self)@.update(c as int, old(self)@[c as int].push(x))); }
  pub fn pop(&mut self, c: usize)
    requires c < old(self)@.len(),
    ensures final(self)@ == old(self)@.update(c as int, if old(self)@[c as int].len() > 0 { old(self)@[c as int].drop_last() } else { old(self)@[c as int] })
  { let n = self.m[c].len(); if n > 0 { self.m[c].truncate(n - 1); } 
    assert(self@ =~= old(self)@.update(c as int, if old(self)@[c as int].len() > 0 { old(self)@[c as int].drop_last() } else { old(self)@[c as int] })); }
  pub fn clear(&mut self, c: usize)
    requires c < old(self)@.len(), ensures final(self)@ == old(self)@.update(c as int, Seq::<u32>::empty())
  { self.m[c].truncate(0); assert(self@[c as int] =~= Seq::<u32>::empty()); assert(self@ =~= old(self)@.update(c as int, Seq::<u32>::empty())); }
  pub fn truncate(&mut self, c: usize, n: usize)
    requires c < old(self)@.len(),
    ensures final(self)@ == old(self)@.update(c as int, if n <= old(self)@[c as int].len() { old(self)@[c as int].take(n as int) } else { old(self)@[c as int] })
  { self.m[c].truncate(n); assert(self@ =~= old(self)@.update(c as int, if n <= old(self)@[c as int].len() { old(self)@[c as int].take(n as int) } else { old(self)@[c as int] })); }
  pub fn alloc(&mut self) -> (r: usize)
    ensures r == old(self)@.len(), final(self)@ == old(self)@.push(Seq::<u32>::empty())
  { let r = self.m.len(); if r >= 0xffff_ffff_ffff { oom(); } self.m.push(Vec::new()); assert(self@ =~= old(self)@.push(Seq::<u32>::empty())); r }
  pub fn dup(&mut self, c: usize) -> (r: usize)
    requires c < old(self)@.len(),
    ensures r == old(self)@.len(), final(self)@ == old(self)@.push(old(self)@[c as int])
  { let n = self.m[c].len(); let r = self.dup_range(c, 0, n); assert(old(self)@[c as int].subrange(0, n as int) =~= old(self)@[c as int]); r }
  pub fn dup_range(&mut self, c: usize, lo: usize, hi: usize) -> (r: usize)
    requires c < old(self)@.len(), lo <= hi <= old(self)@[c as int].len()
    ensures r == old(self)@.len(), final(self)@ == old(self)@.push(old(self)@[c as int].subrange(lo as int, hi as int))
  {
    let r = self.m.len(); if r >= 0xffff_ffff_ffff { oom(); }
    let mut v: Vec<u32> = Vec::new(); let mut i: usize = 0; let n = hi - lo; let ghost o = old(self)@; let ghost s = o[c as int].subrange(lo as int, hi as int);
    while i < n
      invariant c < self@.len(), i <= n, n == hi - lo, lo <= hi <= self@[c as int].len(), s == self@[c as int].subrange(lo as int, hi as int), v@ == s.take(i as int)
      decreases n - i
    { let x = self.m[c][lo + i]; v.push(x); assert(v@ =~= s.take(i + 1)); i = i + 1; }
    assert(s.take(n as int) =~= s); self.m.push(v); assert(self@ =~= o.push(s)); r
  }
  pub fn take(&mut self, c: usize) -> (r: usize)
    requires c < old(self)@.len(),
    ensures r == old(self)@.len(), final(self)@ == old(self)@.push(old(self)@[c as int]).update(c as int, Seq::<u32>::empty())
  { let r = self.dup(c); self.clear(c); r }
  pub fn resize(&mut self, c: usize, n: usize, x: u32)
    requires c < old(self)@.len(),
    ensures final(self)@ == old(self)@.update(c as int, Seq::new(n as nat, |i: int| if i < old(self)@[c as int].len() { old(self)@[c as int][i] } else { x })),
      final(self)@[c as int].len() <= MAXV || n <= old(self)@[c as int].len()
  {
    let ghost o = old(self)@; let ghost s = o[c as int]; let l = self.m[c].len();
    let ghost g = Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { x });
    if n <= l { self.m[c].truncate(n); assert(self@[c as int] =~= g); assert(self@ =~= o.update(c as int, g)); }
    else {
      if n > MAXV { oom(); }
      let mut i = l;
      assert(g.take(l as int) =~= s); assert(self@ =~= o.update(c as int, s));
      while i < n
        invariant o == old(self)@, s == o[c as int], l == s.len(), l <= i <= n, n <= MAXV, c < o.len(), g == Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { x }), self@ == o.update(c as int, g.take(i as int)), self@.len() == o.len()
        decreases n - i
      { self.rawpush(c, x); assert(g.take(i + 1) =~= g.take(i as int).push(x)); assert(self@ =~= o.update(c as int, g.take(i + 1))); i = i + 1; }
      assert(g.take(n as int) =~= g);
    }
  }
  pub fn extend(&mut self, c: usize, d: usize, lo: usize, hi: usize)
    requires c < old(self)@.len(), d < old(self)@.len(), c != d, lo <= hi <= old(self)@[d as int].len()
    ensures final(self)@ == old(self)@.update(c as int, old(self)@[c as int] + old(self)@[d as int].subrange(lo as int, hi as int)), final(self)@[c as int].len() <= MAXV || lo == hi
  {
    let n = hi - lo; let mut i: usize = 0; let ghost o = old(self)@; let ghost s = o[d as int].subrange(lo as int, hi as int); let ghost p = o[c as int];
    assert(self@ =~= o.update(c as int, p + s.take(0)));
    while i < n
      invariant o == old(self)@, c < o.len(), d < o.len(), c != d, i <= n, n == hi - lo, lo <= hi <= o[d as int].len(), s == o[d as int].subrange(lo as int, hi as int), p == o[c as int], self@ == o.update(c as int, p + s.take(i as int)), self@.len() == o.len(),
        i == 0 || self@[c as int].len() <= MAXV
      decreases n - i
    { assert(self@[d as int] == o[d as int]); assert(self.m.len() == o.len()); let x = self.m[d][lo + i]; self.push(c, x);
      assert(p + s.take(i + 1) =~= (p + s.take(i as int)).push(x)); i = i + 1; }
    assert(s.take(n as int) =~= s);
  }
  pub fn veq(&self, c: usize, d: usize) -> (r: bool)
    requires c < self@.len(), d < self@.len(), ensures r == (self@[c as int] == self@[d as int])
  {
    let n = self.m[c].len(); if n != self.m[d].len() { return false; }
    let mut i: usize = 0;
    while i < n invariant c < self@.len(), d < self@.len(), i <= n, n == self@[c as int].len(), n == self@[d as int].len(), forall|k: int| 0 <= k < i ==> self@[c as int][k] == self@[d as int][k] decreases n - i
    { if self.m[c][i] != self.m[d][i] { assert(self@[c as int][i as int] != self@[d as int][i as int]); return false; } i = i + 1; }
    assert(self@[c as int] =~= self@[d as int]); true
  }
  pub fn rotate_right(&mut self, c: usize, k: usize)
    requires c < old(self)@.len(), k <= old(self)@[c as int].len()
    ensures final(self)@ == old(self)@.update(c as int, old(self)@[c as int].subrange(old(self)@[c as int].len() - k, old(self)@[c as int].len() as int) + old(self)@[c as int].subrange(0, old(self)@[c as int].len() - k))
  {
    let n = self.m[c].len(); let ghost o = old(self)@; let ghost s = o[c as int]; let ghost t = s.subrange(n - k, n as int) + s.subrange(0, n - k);
    let mut v: Vec<u32> = Vec::new(); let mut i: usize = 0;
    while i < n
      invariant c < self@.len(), self@ == o, s == o[c as int], n == s.len(), k <= n, i <= n, t == s.subrange(n - k, n as int) + s.subrange(0, n - k), v@ == t.take(i as int)
      decreases n - i
    { let x = if i < k { self.m[c][n - k + i] } else { self.m[c][i - k] }; v.push(x); assert(v@ =~= t.take(i + 1)); i = i + 1; }
    assert(t.take(n as int) =~= t); self.m.set(c, v); assert(self@ =~= o.update(c as int, t));
  }
  pub fn rotate_left(&mut self, c: usize, k: usize)
    requires c < old(self)@.len(), k <= old(self)@[c as int].len()
    ensures final(self)@ == old(self)@.update(c as int, old(self)@[c as int].subrange(k as int, old(self)@[c as int].len() as int) + old(self)@[c as int].subrange(0, k as int))
  { let n = self.m[c].len(); self.rotate_right(c, n - k); }
  /// memmove of n words
  pub fn copy(&mut self, c: usize, co: usize, d: usize, d_o: usize, n: usize)
    requires c < old(self)@.len(), d < old(self)@.len(), co + n <= old(self)@[c as int].len(), d_o + n <= old(self)@[d as int].len()
    ensures final(self)@ == old(self)@.update(d as int, Seq::new(old(self)@[d as int].len(), |i: int| if d_o <= i < d_o + n { old(self)@[c as int][i - d_o + co] } else { old(self)@[d as int][i] }))
  {
    let ghost o = old(self)@; let l = self.m[d].len(); let lc = self.m[c].len(); let ghost t = Seq::new(l as nat, |i: int| if d_o <= i < d_o + n { o[c as int][i - d_o + co] } else { o[d as int][i] });
    let mut v: Vec<u32> = Vec::new(); let mut i: usize = 0;
    while i < l
      invariant c < self@.len(), d < self@.len(), self@ == o, l == o[d as int].len(), lc == o[c as int].len(), co + n <= lc, d_o + n <= l, i <= l, v@ == t.take(i as int),
        t == Seq::new(l as nat, |i: int| if d_o <= i < d_o + n { o[c as int][i - d_o + co] } else { o[d as int][i] })
      decreases l - i
    { let x = if d_o <= i && i < d_o + n { self.m[c][co + (i - d_o)] } else { self.m[d][i] }; v.push(x); assert(v@ =~= t.take(i + 1)); i = i + 1; }
    assert(t.take(l as int) =~= t); self.m.set(d, v); assert(self@ =~= o.update(d as int, t));
  }
  /// two Vec data pointers are compared: equal exactly when they are the same (non-empty) buffer
  pub fn vptr_eq(&self, c: usize, d: usize) -> (r: bool)
    requires c < self@.len(), d < self@.len(), self@[c as int].len() > 0, self@[d as int].len() > 0, ensures r == (c == d)
  { c == d }
}
/// number of elements of step_by(k) over n elements; stepping by 0 panics
pub fn step_len(n: usize, k: usize) -> (r: usize) requires k > 0 ensures r * k >= n, r <= n, r > 0 ==> (r - 1) * k < n, n == 0 ==> r == 0
{ if n == 0 { return 0; } let q = (n - 1) / k;
  proof { lemma_fundamental_div_mod(n - 1, k as int); lemma_mod_bound(n - 1, k as int); let a = q as int; let b = k as int; lemma_mul_is_distributive_add_other_way(b, a, 1); assert(b * a == a * b) by(nonlinear_arith); lemma_div_is_ordered_by_denominator(n - 1, 1, b); lemma_div_basics(n - 1); lemma_mul_basics(b); }
  q + 1 }
pub fn step_mul(i: usize, k: usize, n: usize) -> (r: usize) requires i * k < n ensures r == i * k, r < n { i * k }
// ---- numbers
pub open spec fn pw(n: int) -> int decreases n { if n <= 0 { 1 } else { 0x1_0000_0000 * pw(n - 1) } }
pub open spec fn rv(s: Seq<u32>, lo: int, n: int) -> int decreases n { if n <= 0 { 0 } else { rv(s, lo, n - 1) + s[lo + n - 1] * pw(n - 1) } }
pub open spec fn val(s: Seq<u32>) -> int { rv(s, 0, s.len() as int) }
pub open spec fn canon(s: Seq<u32>) -> bool { s.len() <= 1 || s[s.len() - 1] != 0 }
pub open spec fn ok(h: Hp, c: usize) -> bool { c < h.len() }
/// a well formed Nat: canonical, or NaN (no words)
pub open spec fn cn(h: Hp, c: usize) -> bool { c < h.len() && canon(h[c as int]) }
pub open spec fn na(h: Hp, c: usize) -> bool { h[c as int].len() == 0 }
pub open spec fn nv(h: Hp, c: usize) -> int { val(h[c as int]) }
/// only cell c may have changed
pub open spec fn fr(a: Hp, b: Hp, c: usize) -> bool { b.len() >= a.len() && forall|k: int| 0 <= k < a.len() && k != c ==> #[trigger] b[k] == a[k] }
pub open spec fn fr2(a: Hp, b: Hp, c: usize, d: usize) -> bool { b.len() >= a.len() && forall|k: int| 0 <= k < a.len() && k != c && k != d ==> #[trigger] b[k] == a[k] }
/// nothing that existed has changed
pub open spec fn ex(a: Hp, b: Hp) -> bool { b.len() >= a.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k] }
pub proof fn lemma_rv_eq(s: Seq<u32>, lo: int, t: Seq<u32>, lt: int, n: int)
  requires forall|k: int| 0 <= k < n ==> #[trigger] s[lo + k] == t[lt + k]
  ensures rv(s, lo, n) == rv(t, lt, n) decreases n { if n > 0 { assert(s[lo + (n - 1)] == t[lt + (n - 1)]); lemma_rv_eq(s, lo, t, lt, n - 1); } }
pub broadcast proof fn rv_update(s: Seq<u32>, i: int, x: u32, lo: int, n: int)
  requires 0 <= i < s.len(), i < lo || i >= lo + n
  ensures #[trigger] rv(s.update(i, x), lo, n) == rv(s, lo, n)
{ assert forall|k: int| 0 <= k < n implies #[trigger] s.update(i, x)[lo + k] == s[lo + k] by { }; lemma_rv_eq(s.update(i, x), lo, s, lo, n); }
pub broadcast proof fn rv_push(s: Seq<u32>, x: u32, lo: int, n: int)
  requires lo + n <= s.len(), 0 <= lo
  ensures #[trigger] rv(s.push(x), lo, n) == rv(s, lo, n) { lemma_rv_eq(s.push(x), lo, s, lo, n); }
pub broadcast group g { rv_update, rv_push, lemma_nv_nonneg }
pub proof fn lemma_carry(o: int, c2: int, t: int, p: int) requires o + c2 * 0x1_0000_0000 == t ensures o * p + c2 * (0x1_0000_0000 * p) == t * p
{ assert(o * p + c2 * (0x1_0000_0000 * p) == (o + c2 * 0x1_0000_0000) * p) by(nonlinear_arith); }
pub proof fn lemma_dist3(a: int, b: int, c: int, p: int) ensures (a + b + c) * p == a * p + b * p + c * p { assert((a + b + c) * p == a * p + b * p + c * p) by(nonlinear_arith); }
pub proof fn lemma_dist2(a: int, b: int, p: int) ensures (a + b) * p == a * p + b * p, (a - b) * p == a * p - b * p { assert((a + b) * p == a * p + b * p) by(nonlinear_arith); assert((a - b) * p == a * p - b * p) by(nonlinear_arith); }
pub proof fn lemma_pw_pos(n: int) ensures pw(n) >= 1 decreases n { if n > 0 { lemma_pw_pos(n - 1); } }
/// one more word
pub proof fn lemma_step(s: Seq<u32>, lo: int, n: int) requires n >= 0 ensures rv(s, lo, n + 1) == rv(s, lo, n) + s[lo + n] * pw(n), pw(n + 1) == 0x1_0000_0000 * pw(n) { }
pub proof fn lemma_rv_bound(s: Seq<u32>, lo: int, n: int) requires n >= 0 ensures 0 <= rv(s, lo, n) < pw(n) decreases n
{ if n > 0 { lemma_rv_bound(s, lo, n - 1); let x = s[lo + n - 1] as int; let p = pw(n - 1); lemma_pw_pos(n - 1);
    assert(x * p >= 0) by(nonlinear_arith) requires x >= 0, p >= 1; assert((x + 1) * p <= 0x1_0000_0000 * p) by(nonlinear_arith) requires x + 1 <= 0x1_0000_0000, p >= 1; lemma_dist2(x, 1, p); } }
pub proof fn lemma_rv_zero(s: Seq<u32>, lo: int, n: int) requires forall|k: int| lo <= k < lo + n ==> s[k] == 0 ensures rv(s, lo, n) == 0 decreases n { if n > 0 { lemma_rv_zero(s, lo, n - 1); } }
pub proof fn lemma_pw_add(a: int, b: int) requires a >= 0, b >= 0 ensures pw(a + b) == pw(a) * pw(b) decreases b
{ if b > 0 { lemma_pw_add(a, b - 1); let x = pw(a); let y = pw(b - 1); assert(0x1_0000_0000 * (x * y) == x * (0x1_0000_0000 * y)) by(nonlinear_arith); } else { assert(pw(a) * 1 == pw(a)); } }
pub proof fn lemma_rv_split(s: Seq<u32>, lo: int, a: int, b: int) requires a >= 0, b >= 0 ensures rv(s, lo, a + b) == rv(s, lo, a) + pw(a) * rv(s, lo + a, b) decreases b
{ if b > 0 { lemma_rv_split(s, lo, a, b - 1); lemma_pw_add(a, b - 1); let x = s[lo + a + b - 1] as int; let p = pw(a); let q = pw(b - 1); let r = rv(s, lo + a, b - 1);
    assert(p * (r + x * q) == p * r + x * (p * q)) by(nonlinear_arith); } else { assert(pw(a) * 0 == 0); } }
// ---- x86 intrinsics: contracts from the Intel manual (assumed)
#[verifier::external_body]
pub fn x86_addcarryx_u32(c: u8, a: u32, b: u32) -> (r: (u8, u32)) ensures r.0 <= 1, r.1 + r.0 * 0x1_0000_0000 == a + b + (if c == 0 { 0int } else { 1 }) { unimplemented!() }
#[verifier::external_body]
pub fn x86_subborrow_u32(c: u8, a: u32, b: u32) -> (r: (u8, u32)) ensures r.0 <= 1, r.1 - r.0 * 0x1_0000_0000 == a - b - (if c == 0 { 0int } else { 1 }) { unimplemented!() }
pub fn ord_lt(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Less)) { match o { Some(Ordering::Less) => true, _ => false } }
pub fn ord_gt(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Greater)) { match o { Some(Ordering::Greater) => true, _ => false } }
pub fn ord_le(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Less) || o == Some(Ordering::Equal)) { match o { Some(Ordering::Less) => true, Some(Ordering::Equal) => true, _ => false } }
pub fn ord_ge(o: Option<Ordering>) -> (r: bool) ensures r == (o == Some(Ordering::Greater) || o == Some(Ordering::Equal)) { match o { Some(Ordering::Greater) => true, Some(Ordering::Equal) => true, _ => false } }
pub fn ord_rev(o: Ordering) -> (r: Ordering) ensures r == (match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }) { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub fn is_Ordering_Less(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less) { match o { Ordering::Less => true, _ => false } }
pub fn is_Ordering_Equal(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal) { match o { Ordering::Equal => true, _ => false } }
pub fn is_Ordering_Greater(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater) { match o { Ordering::Greater => true, _ => false } }
pub fn is_BISign_Negative(o: BISign) -> (r: bool) ensures r == (o == BISign::Negative) { match o { BISign::Negative => true, _ => false } }
pub fn is_BISign_Natural(o: BISign) -> (r: bool) ensures r == (o == BISign::Natural) { match o { BISign::Natural => true, _ => false } }
pub proof fn lemma_addc(v: int, c: int, a: int, out: int, c2: int, x: int, y: int, n: int)
  requires n >= 0, v + c * pw(n) == a, out + c2 * 0x1_0000_0000 == x + y + c
  ensures v + out * pw(n) + c2 * pw(n + 1) == a + x * pw(n) + y * pw(n)
{ lemma_carry(out, c2, x + y + c, pw(n)); lemma_dist3(x, y, c, pw(n)); }
pub proof fn lemma_subc(v: int, c: int, a: int, out: int, c2: int, x: int, y: int, n: int)
  requires n >= 0, v - c * pw(n) == a, out - c2 * 0x1_0000_0000 == x - y - c
  ensures v + out * pw(n) - c2 * pw(n + 1) == a + x * pw(n) - y * pw(n)
{ let p = pw(n); assert(out * p - c2 * (0x1_0000_0000 * p) == (out - c2 * 0x1_0000_0000) * p) by(nonlinear_arith); assert((x - y - c) * p == x * p - y * p - c * p) by(nonlinear_arith); }

// ---- order of canonical numbers
pub open spec fn ordv(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub proof fn lemma_cmp_at(s: Seq<u32>, t: Seq<u32>, n: int, k: int)
  requires 0 <= k < n, forall|j: int| k < j < n ==> s[j] == t[j], s[k] < t[k]
  ensures rv(s, 0, n) < rv(t, 0, n)
  decreases n
{
  lemma_step(s, 0, n - 1); lemma_step(t, 0, n - 1);
  if k == n - 1 {
    lemma_rv_bound(s, 0, k); lemma_rv_bound(t, 0, k); let x = s[k] as int; let y = t[k] as int; let p = pw(k); lemma_pw_pos(k);
    assert((x + 1) * p <= y * p) by(nonlinear_arith) requires x + 1 <= y, p >= 1; lemma_dist2(x, 1, p);
  } else { assert(s[n - 1] == t[n - 1]); lemma_cmp_at(s, t, n - 1, k); }
}
pub proof fn lemma_top(s: Seq<u32>) requires s.len() > 0, s[s.len() - 1] != 0 ensures val(s) >= pw(s.len() - 1)
{ let n = s.len() - 1; lemma_step(s, 0, n); lemma_rv_bound(s, 0, n); lemma_pw_pos(n); let x = s[n] as int; let p = pw(n); assert(x * p >= p) by(nonlinear_arith) requires x >= 1, p >= 1; }
pub proof fn lemma_pw_mono(a: int, b: int) requires 0 <= a <= b ensures pw(a) <= pw(b) decreases b { if a < b { lemma_pw_mono(a, b - 1); lemma_pw_pos(b - 1); } }
pub proof fn lemma_len_cmp(s: Seq<u32>, t: Seq<u32>) requires canon(s), canon(t), 0 < s.len() < t.len() ensures val(s) < val(t)
{ lemma_top(t); lemma_rv_bound(s, 0, s.len() as int); lemma_pw_mono(s.len() as int, t.len() - 1); }
/// canonical forms are unique
pub proof fn lemma_canon_eq(s: Seq<u32>, t: Seq<u32>) requires canon(s), canon(t), s.len() > 0, t.len() > 0, val(s) == val(t) ensures s == t
{
  if s.len() < t.len() { lemma_len_cmp(s, t); } else if t.len() < s.len() { lemma_len_cmp(t, s); } else { lemma_eq_words(s, t, s.len() as int); assert(s =~= t); }
}
pub proof fn lemma_eq_words(s: Seq<u32>, t: Seq<u32>, n: int) requires n >= 0, rv(s, 0, n) == rv(t, 0, n) ensures forall|k: int| 0 <= k < n ==> s[k] == t[k] decreases n
{ if n > 0 { if s[n - 1] < t[n - 1] { lemma_cmp_at(s, t, n, n - 1); } else if s[n - 1] > t[n - 1] { lemma_cmp_at(t, s, n, n - 1); } else { lemma_step(s, 0, n - 1); lemma_step(t, 0, n - 1); lemma_eq_words(s, t, n - 1); } } }
/// zero words on top do not change the value
pub proof fn lemma_rv_top0(s: Seq<u32>, lo: int, m: int, n: int) requires 0 <= m <= n, forall|k: int| lo + m <= k < lo + n ==> s[k] == 0 ensures rv(s, lo, n) == rv(s, lo, m) decreases n
{ if m < n { lemma_step(s, lo, n - 1); lemma_rv_top0(s, lo, m, n - 1); assert(s[lo + n - 1] == 0); assert(0 * pw(n - 1) == 0); } }
pub proof fn lemma_val_take(s: Seq<u32>, m: int) requires 0 <= m <= s.len(), forall|k: int| m <= k < s.len() ==> s[k] == 0 ensures val(s.take(m)) == val(s)
{ lemma_rv_top0(s, 0, m, s.len() as int); lemma_rv_eq(s.take(m), 0, s, 0, m); }
pub proof fn lemma_val1(s: Seq<u32>) requires s.len() == 1 ensures val(s) == s[0] { lemma_step(s, 0, 0); assert(s[0] * 1 == s[0]); assert(rv(s, 0, 0) == 0); assert(pw(0) == 1); }
pub proof fn lemma_val0(s: Seq<u32>) requires s.len() == 0 ensures val(s) == 0 { }
/// V - c*pw(n) = d >= 0 with V < pw(n) leaves no borrow
pub proof fn lemma_noborrow(s: Seq<u32>, n: int, c: int) requires n >= 0, 0 <= c, rv(s, 0, n) - c * pw(n) >= 0 ensures c == 0, c * pw(n) == 0
{ lemma_rv_bound(s, 0, n); lemma_pw_pos(n); let p = pw(n); if c >= 1 { assert(c * p >= p) by(nonlinear_arith) requires c >= 1, p >= 1; } }
pub proof fn lemma_tail_eq(s: Seq<u32>, t: Seq<u32>, q: int, n: int) requires 0 <= q <= n, forall|k: int| q <= k < n ==> s[k] == t[k] ensures rv(s, 0, n) - rv(s, 0, q) == rv(t, 0, n) - rv(t, 0, q)
{ lemma_rv_split(s, 0, q, n - q); lemma_rv_split(t, 0, q, n - q); lemma_rv_eq(s, q, t, q, n - q); }
pub proof fn lemma_canon_big(s: Seq<u32>) requires s.len() <= 1 || val(s) >= pw(s.len() - 1) ensures canon(s)
{ if s.len() > 1 && s[s.len() - 1] == 0 { lemma_step(s, 0, s.len() - 1); lemma_rv_bound(s, 0, s.len() - 1); assert(0 * pw(s.len() - 1) == 0); } }
// ---- signed numbers
pub open spec fn bv(h: Hp, b: BigInt) -> int { if b.sign == BISign::Negative { -nv(h, b.nat) } else { nv(h, b.nat) } }
/// a well formed BigInt: canonical words, never a negative zero (the sign of a NaN is not observable)
pub open spec fn cb(h: Hp, b: BigInt) -> bool { cn(h, b.nat) && (b.sign == BISign::Negative ==> na(h, b.nat) || nv(h, b.nat) != 0) }
pub open spec fn nb(h: Hp, b: BigInt) -> bool { na(h, b.nat) }
/// b is stored in c or in fresh storage
pub open spec fn own(o: Hp, n: usize, c: usize) -> bool { n == c || n >= o.len() }
pub broadcast proof fn lemma_nv_nonneg(h: Hp, c: usize) ensures #[trigger] nv(h, c) >= 0 { lemma_rv_bound(h[c as int], 0, h[c as int].len() as int); }
pub fn disc_BISign(o: BISign) -> (r: isize) ensures r == (if o == BISign::Negative { 0int } else { 1 }) { match o { BISign::Negative => 0, _ => 1 } }
pub open spec fn ab(x: int) -> int { if x < 0 { -x } else { x } }
/// truncating quotient and remainder
pub open spec fn tq(a: int, b: int) -> int { if (a < 0) != (b < 0) { -(ab(a) / ab(b)) } else { ab(a) / ab(b) } }
pub open spec fn tr(a: int, b: int) -> int { if a < 0 { -(ab(a) % ab(b)) } else { ab(a) % ab(b) } }
// ---- powers of two and bits
pub open spec fn p2(n: int) -> int { pow2(n as nat) as int }
pub open spec fn bit(v: int, i: int) -> bool { (v / p2(i)) % 2 == 1 }
pub proof fn lemma_p2_pos(n: int) ensures p2(n) >= 1 { lemma_pow2_pos(n as nat); }
pub proof fn lemma_p2_add(a: int, b: int) requires a >= 0, b >= 0 ensures p2(a + b) == p2(a) * p2(b) { lemma_pow2_adds(a as nat, b as nat); }
pub proof fn lemma_p2_1(n: int) requires n >= 0 ensures p2(n + 1) == 2 * p2(n) { lemma_pow2_unfold((n + 1) as nat); }
pub proof fn lemma_p2_0() ensures p2(0) == 1, p2(1) == 2, p2(32) == 0x1_0000_0000, p2(31) == 0x8000_0000, p2(64) == 0x1_0000_0000_0000_0000 { lemma2_to64(); lemma2_to64_rest(); }
pub proof fn lemma_p2_mono(a: int, b: int) requires 0 <= a <= b ensures p2(a) <= p2(b) { if a < b { lemma_pow2_strictly_increases(a as nat, b as nat); } }
pub proof fn lemma_p2_lt(a: int, b: int) requires 0 <= a < b ensures p2(a) < p2(b) { lemma_pow2_strictly_increases(a as nat, b as nat); }
pub proof fn lemma_p2_pw(n: int) requires n >= 0 ensures p2(32 * n) == pw(n) decreases n
{ lemma_p2_0(); if n > 0 { lemma_p2_pw(n - 1); lemma_p2_add(32, 32 * (n - 1)); assert(32 + 32 * (n - 1) == 32 * n); } }
pub proof fn lemma_sh5(r: usize) ensures r >> 5 == r / 32, r & 31 == r % 32, (r >> 5) * 32 + (r & 31) == r, r & 31 < 32
{ assert(r >> 5 == r / 32 && r & 31 == r % 32) by(bit_vector); }
pub proof fn lemma_p2_split(r: int) requires r >= 0 ensures p2(r) == pw(r / 32) * p2(r % 32) { lemma_p2_pw(r / 32); lemma_p2_add(32 * (r / 32), r % 32); }
pub proof fn lemma_shl32(x: u32, s: u32) requires s < 32 ensures x << s == (x * p2(s as int)) % 0x1_0000_0000, (x as u64) << (s as u64) == x * p2(s as int)
{ lemma_p2_0(); lemma_p2_mono(s as int, 31); let p = p2(s as int); lemma_p2_pos(s as int); assert(0 <= x * p < 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires 0 <= x < 0x1_0000_0000, 1 <= p <= 0x8000_0000; lemma_u64_shl_is_mul(x as u64, s as u64);
  assert(x << s == ((x as u64) << (s as u64)) as u32) by(bit_vector) requires s < 32; let y = (x as u64) << (s as u64); assert(y as u32 == y % 0x1_0000_0000) by(bit_vector); }
pub proof fn lemma_shr32(x: u32, s: u32) requires s < 32 ensures x >> s == x as int / p2(s as int) { lemma_u32_shr_is_div(x, s); }
pub proof fn lemma_one_shl() ensures forall|s: u32| s < 32 ==> #[trigger] (1u32 << s) >= 1u32 { assert(forall|s: u32| s < 32 ==> #[trigger] (1u32 << s) >= 1u32) by(bit_vector); }
pub open spec fn wd(s: Seq<u32>, k: int) -> u32 { if 0 <= k < s.len() { s[k] } else { 0 } }
/// (a + m*P*2) / P has the parity of a / P
pub proof fn lemma_bit_low(a: int, P: int, c: int) requires P >= 1 ensures ((a + c * (2 * P)) / P) % 2 == (a / P) % 2
{ let q = a / P; let r = a % P; lemma_fundamental_div_mod(a, P); lemma_mod_bound(a, P); assert(a + c * (2 * P) == (q + 2 * c) * P + r) by(nonlinear_arith) requires a == P * q + r; lemma_fundamental_div_mod_converse(a + c * (2 * P), P, q + 2 * c, r); }
pub proof fn lemma_div_drop(lo: int, p: int, x: int, q: int) requires 0 <= lo < p, q >= 1 ensures (lo + p * x) / (p * q) == x / q
{ let a = x / q; let r = x % q; lemma_fundamental_div_mod(x, q); lemma_mod_bound(x, q); assert(0 <= lo + p * r < p * q) by(nonlinear_arith) requires 0 <= lo < p, 0 <= r, r + 1 <= q;
  assert(lo + p * x == a * (p * q) + (lo + p * r)) by(nonlinear_arith) requires x == q * a + r; lemma_fundamental_div_mod_converse(lo + p * x, p * q, a, lo + p * r); }
/// bit i of a number is bit i%32 of its word i/32
pub proof fn lemma_vbit(s: Seq<u32>, i: int) requires i >= 0 ensures bit(val(s), i) == bit(wd(s, i / 32) as int, i % 32)
{
  let k = i / 32; let j = i % 32; let n = s.len() as int; lemma_p2_split(i); let P = p2(j); lemma_p2_pos(j); lemma_p2_0(); lemma_rv_bound(s, 0, n);
  if k < n {
    lemma_rv_split(s, 0, k, n - k); lemma_rv_bound(s, 0, k); let x = rv(s, k, n - k); lemma_div_drop(rv(s, 0, k), pw(k), x, P);
    lemma_rv_split(s, k, 1, n - k - 1); lemma_step(s, k, 0); assert(pw(1) == 0x1_0000_0000 * pw(0)); let y = rv(s, k + 1, n - k - 1); assert(rv(s, k, 1) == s[k]) by { assert(s[k] * 1 == s[k]); }
    lemma_p2_add(j, 32 - j); lemma_p2_1(31 - j); let Q = p2(31 - j); let c = y * Q; assert(0x1_0000_0000 * y == c * (2 * P)) by(nonlinear_arith) requires P * (2 * Q) == 0x1_0000_0000, c == y * Q;
    lemma_bit_low(s[k] as int, P, c);
  } else { lemma_pw_mono(n, k); let a = pw(k); assert(a * P >= a) by(nonlinear_arith) requires a >= 1, P >= 1; lemma_pw_pos(k); lemma_basic_div(val(s), p2(i)); lemma_basic_div(0, P); }
}
pub proof fn lemma_wbit(x: u32, j: u32) requires j < 32 ensures bit(x as int, j as int) == ((x >> j) & 1 == 1) { lemma_shr32(x, j); let y = x >> j; assert(y & 1 == y % 2) by(bit_vector); }
/// -x-1 has the complemented bits of x (infinite two's complement)
pub proof fn lemma_bit_neg(w: int, i: int) requires i >= 0 ensures bit(-w - 1, i) == !bit(w, i)
{ let P = p2(i); lemma_p2_pos(i); let q = w / P; let r = w % P; lemma_fundamental_div_mod(w, P); lemma_mod_bound(w, P); assert(-w - 1 == (-q - 1) * P + (P - 1 - r)) by(nonlinear_arith) requires w == P * q + r; lemma_fundamental_div_mod_converse(-w - 1, P, -q - 1, P - 1 - r); }
pub proof fn lemma_bit_neg_all(w: int) ensures forall|i: int| i >= 0 ==> #[trigger] bit(-w - 1, i) == !bit(w, i) { assert forall|i: int| i >= 0 implies #[trigger] bit(-w - 1, i) == !bit(w, i) by { lemma_bit_neg(w, i); } }
pub proof fn lemma_bw0() ensures forall|x: u32| #[trigger] (x & 0) == 0, forall|x: u32| #[trigger] (0 & x) == 0, forall|x: u32| #[trigger] (x | 0) == x, forall|x: u32| #[trigger] (0 | x) == x, forall|x: u32| #[trigger] (x ^ 0) == x, forall|x: u32| #[trigger] (0 ^ x) == x, forall|x: u32| #[trigger] (x & !0u32) == x, forall|x: u32| #[trigger] (0 & !x) == 0
{ assert forall|x: u32| #[trigger] (x & 0) == 0 by { assert((x & 0) == 0) by(bit_vector); } assert forall|x: u32| #[trigger] (0 & x) == 0 by { assert((0 & x) == 0) by(bit_vector); } assert forall|x: u32| #[trigger] (x | 0) == x by { assert((x | 0) == x) by(bit_vector); } assert forall|x: u32| #[trigger] (0 | x) == x by { assert((0 | x) == x) by(bit_vector); } assert forall|x: u32| #[trigger] (x ^ 0) == x by { assert((x ^ 0) == x) by(bit_vector); } assert forall|x: u32| #[trigger] (0 ^ x) == x by { assert((0 ^ x) == x) by(bit_vector); } assert forall|x: u32| #[trigger] (x & !0u32) == x by { assert((x & !0u32) == x) by(bit_vector); } assert forall|x: u32| #[trigger] (0 & !x) == 0 by { assert((0 & !x) == 0) by(bit_vector); } }
/// length of the binary representation (1 for 0)
pub open spec fn blen(v: int) -> int decreases v { if v <= 1 { 1 } else { 1 + blen(v / 2) } }
pub proof fn lemma_blen(v: int, n: int) requires n >= 1, v < p2(n), v >= p2(n - 1) || (v >= 0 && n == 1) ensures blen(v) == n decreases n
{ lemma_p2_0(); if n > 1 { lemma_p2_1(n - 1); lemma_p2_1(n - 2); lemma_p2_pos(n - 2); lemma_blen(v / 2, n - 1); } }
pub proof fn lemma_blen_ge(v: int) requires v >= 1 ensures blen(v) >= 1, p2(blen(v) - 1) <= v < p2(blen(v)) decreases v
{ lemma_p2_0(); if v > 1 { lemma_blen_ge(v / 2); let n = blen(v / 2); lemma_p2_1(n); lemma_p2_1(n - 1); } }
// ---- AVX2: a 256-bit register as four 64-bit lanes; contracts of the intrinsics (Intel's definitions, assumed)
#[derive(Clone, Copy)]
pub struct M256 { pub a: u64, pub b: u64, pub c: u64, pub d: u64 }
pub open spec fn u32of(x: i32) -> int { if x < 0 { x + 0x1_0000_0000 } else { x as int } }
pub open spec fn lo32(x: u64) -> int { x as int % 0x1_0000_0000 }
#[verifier::external_body]
pub fn x86_mm256_set1_epi32(x: i32) -> (r: M256) ensures r.a == u32of(x) * 0x1_0000_0001, r.b == r.a, r.c == r.a, r.d == r.a { panic!() }
#[verifier::external_body]
pub fn x86_mm256_setr_epi32(x0: i32, x1: i32, x2: i32, x3: i32, x4: i32, x5: i32, x6: i32, x7: i32) -> (r: M256)
  ensures r.a == u32of(x0) + u32of(x1) * 0x1_0000_0000, r.b == u32of(x2) + u32of(x3) * 0x1_0000_0000, r.c == u32of(x4) + u32of(x5) * 0x1_0000_0000, r.d == u32of(x6) + u32of(x7) * 0x1_0000_0000 { panic!() }
#[verifier::external_body]
pub fn x86_mm256_mul_epu32(x: M256, y: M256) -> (r: M256) ensures r.a == lo32(x.a) * lo32(y.a), r.b == lo32(x.b) * lo32(y.b), r.c == lo32(x.c) * lo32(y.c), r.d == lo32(x.d) * lo32(y.d) { panic!() }
pub open spec fn mtop(x: u64) -> bool { x >= 0x8000_0000_0000_0000 }
#[verifier::external_body]
pub fn x86_mm256_maskstore_epi64(v: &mut Vec<u64>, o: usize, m: M256, x: M256)
  requires mtop(m.a) ==> o < old(v).len(), mtop(m.b) ==> o + 1 < old(v).len(), mtop(m.c) ==> o + 2 < old(v).len(), mtop(m.d) ==> o + 3 < old(v).len()
  ensures final(v).len() == old(v).len(), forall|k: int| 0 <= k < old(v).len() ==> #[trigger] final(v)@[k] ==
    (if k == o && mtop(m.a) { x.a } else if k == o + 1 && mtop(m.b) { x.b } else if k == o + 2 && mtop(m.c) { x.c } else if k == o + 3 && mtop(m.d) { x.d } else { old(v)@[k] }) { panic!() }
#[verifier::external_body]
pub fn x86_addcarryx_u64(c: u8, a: u64, b: u64) -> (r: (u8, u64)) ensures r.0 <= 1, r.1 + r.0 * 0x1_0000_0000_0000_0000 == a + b + (if c == 0 { 0int } else { 1 }) { panic!() }
pub fn isize_off(i: isize) -> (r: usize) requires i >= 0 ensures r == i { i as usize }
#[verifier::external_body]
pub fn vclone_u64(v: &Vec<u64>) -> (r: Vec<u64>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn vresize_u64(v: &mut Vec<u64>, n: usize, x: u64) ensures final(v)@ == (if n <= old(v).len() { old(v)@.take(n as int) } else { old(v)@ + Seq::new((n - old(v).len()) as nat, |i: int| x) }) { v.resize(n, x) }
#[derive(Copy, Clone)] pub struct F64 { pub b: u64 }
#[derive(Copy, Clone)] pub struct F32 { pub b: u32 }
