//! Runs operations of the real rmath crate named on stdin, one per line, and prints what they returned.
//! Nat tokens: comma separated hex limbs, little endian ("nan" = no limb). BigInt tokens: the same with a leading '-'.
use rmath::bigint::{BigInt, Nat, Rat};
use rmath::rand::{IterSource, Iter, Seed, Source, RandError, RandErrKind, LinearCongruentialRand, MersenneTwisterRand, LaggedFibonacciRand};
use std::io::{BufRead, Write};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering as AO};

fn limbs(s: &str) -> Vec<u32> { if s == "nan" { vec![] } else { s.split(',').map(|x| u32::from_str_radix(x, 16).unwrap()).collect() } }
fn n(s: &str) -> Nat { Nat::from(limbs(s)) }
fn i(s: &str) -> BigInt {
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let mut b = BigInt::from(limbs(t));
    if neg { b.set_negative(); }
    b
}
fn sn(x: &Nat) -> String {
    let v: &[u32] = x.as_ref();
    if v.is_empty() { "nan".into() } else { v.iter().map(|l| format!("{:x}", l)).collect::<Vec<_>>().join(",") }
}
fn si(x: &BigInt) -> String { let m: &Nat = x.as_ref(); format!("{}{}", if x.is_negative() { "-" } else { "" }, sn(m)) }
fn r(s: &str) -> Rat {
    if s == "nan" { return Rat::from(f64::NAN); }
    let mut it = s.split('/');
    let (a, b) = (i(it.next().unwrap()), i(it.next().unwrap()));
    Rat::from_frac_bigint(&a, &b).unwrap()
}
fn sr(x: &Rat) -> String { if x.is_nan() { "nan".into() } else { format!("{}/{}", si(x.numerator()), si(x.denominator())) } }
fn so(x: Option<std::cmp::Ordering>) -> &'static str { use std::cmp::Ordering::*; match x { None => "none", Some(Less) => "lt", Some(Equal) => "eq", Some(Greater) => "gt" } }
// print a result, then change it in place: the operands printed after it must not have moved with it
fn xn(mut z: Nat) -> String { let s = sn(&z); if !z.is_nan() { z += 1u32; z <<= 33; } s }
fn xi(mut z: BigInt) -> String { let s = si(&z); if !z.is_nan() { z += BigInt::from(1u32); z <<= 33usize; } s }
fn xr(mut z: Rat) -> String { let s = sr(&z); z -= Rat::from(f64::NAN); s }
fn hex(b: &[u8]) -> String { if b.is_empty() { "-".into() } else { b.iter().map(|x| format!("{:02x}", x)).collect() } }
fn unhex(s: &str) -> Vec<u8> { if s == "-" { vec![] } else { (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect() } }

/// scripted random source: yields the listed words, 'e' entries are failures; afterwards a xorshift sequence
struct Script { v: Vec<Option<u32>>, k: usize, s: u64, calls: u64 }
impl Script { fn new(s: &str) -> Script { Script { v: if s == "-" { vec![] } else { s.split(',').map(|x| if x == "e" { None } else { Some(u32::from_str_radix(x, 16).unwrap()) }).collect() }, k: 0, s: 0x9E3779B97F4A7C15, calls: 0 } } }
impl Source<u32> for Script {
    fn gen(&mut self) -> Result<u32, RandError> {
        self.calls += 1;
        if self.k < self.v.len() { self.k += 1; self.v[self.k - 1].ok_or_else(|| RandError::new(RandErrKind::NoNewRandSeedGen, "scripted")) }
        else { self.s ^= self.s << 13; self.s ^= self.s >> 7; self.s ^= self.s << 17; Ok((self.s >> 16) as u32) }
    }
    fn reset<Sd: Seed<u32>>(&mut self, _: &Sd) -> Result<(), RandError> { Ok(()) }
}
impl IterSource<u32> for Script { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }
struct Sd<T>(T);
impl<T: Copy + rmath::rand::PrimitiveType> Seed<T> for Sd<T> { fn seed(&self) -> Result<T, RandError> { Ok(self.0) } }

macro_rules! bin {
    ($op:expr, $mode:expr, $a:expr, $b:expr, $s:ident, $x:ident, { $($nm:literal => $f:ident, $fa:ident;)* }) => {{
        use std::ops::*;
        let (a, b) = ($a, $b);
        let (da, db) = (a.deep_clone(), b.deep_clone());
        match ($op, $mode) {
            $(
            ($nm, "v") => { let z = a.clone().$f(b.clone()); let o = $x(z); format!("{} {} {} {} {}", o, $s(&a), $s(&b), $s(&da), $s(&db)) }
            ($nm, "s") => { let z = a.clone().$f(a.clone()); let o = $x(z); format!("{} {} {} {} {}", o, $s(&a), $s(&b), $s(&da), $s(&db)) }
            ($nm, "m") => { let z = a.clone().$f(b.clone()); let mut y = z.clone(); y.$fa(b.clone()); format!("{} {} {} {} {}", $s(&y), $s(&a), $s(&b), $s(&da), $s(&db)) }
            ($nm, "a") => { let mut x = a.clone(); x.$fa(b.clone()); format!("{} - {} {} {}", $s(&x), $s(&b), $s(&da), $s(&db)) }
            ($nm, "t") => { let mut x = a.clone(); let y = x.clone(); x.$fa(y); format!("{} - {} {} {}", $s(&x), $s(&b), $s(&da), $s(&db)) }
            )*
            _ => "BAD".to_string(),
        }
    }};
}
macro_rules! prim {
    ($op:expr, $mode:expr, $a:expr, $b:expr, $s:ident, $x:ident, { $($nm:literal => $f:ident, $fa:ident;)* }) => {{
        use std::ops::*;
        let (a, b) = ($a, $b);
        let da = a.deep_clone();
        match ($op, $mode) {
            $(
            ($nm, "v") => { let z = a.clone().$f(b); format!("{} {} {}", $x(z), $s(&a), $s(&da)) }
            ($nm, "a") => { let mut x = a.clone(); x.$fa(b); format!("{} - {}", $s(&x), $s(&da)) }
            )*
            _ => "BAD".to_string(),
        }
    }};
}
macro_rules! lcg { ($T:ty, $w:expr) => {{ let p = |k: usize| $w[k].parse::<u128>().unwrap() as $T;
    match LinearCongruentialRand::<$T>::new(&Sd(p(5)), p(2), p(3), p(4)) { Err(_) => "err".to_string(), Ok(mut g) => drawn(&mut g, p(6) as usize, Sd(p(5))) } }} }
macro_rules! lf { ($T:ty, $w:expr) => {{ let p = |k: usize| $w[k].parse::<u128>().unwrap() as $T;
    match LaggedFibonacciRand::<$T>::new(&Sd(p(5)), p(2), p(3), p(4)) { Err(_) => "err".to_string(), Ok(mut g) => drawn(&mut g, p(6) as usize, Sd(p(5))) } }} }
macro_rules! mt { ($T:ty, $w:expr) => {{ let p = |k: usize| $w[k].parse::<u128>().unwrap() as $T;
    match MersenneTwisterRand::<$T>::new(&Sd(p(2)), p(3), p(4), p(5), p(6), p(7), (p(8), p(9)), (p(10), p(11)), (p(12), p(13)), p(14), p(15)) { Err(_) => "err".to_string(), Ok(mut g) => drawn(&mut g, p(16) as usize, Sd(p(2))) } }} }
fn drawn<T: std::fmt::Display + Copy + rmath::rand::PrimitiveType, G: IterSource<T>>(g: &mut G, k: usize, sd: Sd<T>) -> String {
    // the first half through the iterator, the rest directly
    let mut v: Vec<String> = g.iter_mut().take(k / 2).map(|x| x.to_string()).collect();
    for _ in k / 2..k { v.push(match g.gen() { Ok(x) => x.to_string(), Err(_) => "err".into() }); }
    g.reset(&sd).unwrap();
    v.push("reset".into());
    for _ in 0..3.min(k) { v.push(match g.gen() { Ok(x) => x.to_string(), Err(_) => "err".into() }); }
    v.join(",")
}
fn f64o(x: (f64, bool)) -> String { format!("{:x} {}", x.0.to_bits(), x.1) }
fn parse_txt(s: &str) -> String { String::from_utf8(unhex(s)).unwrap() }

fn run(w: &[&str]) -> String {
    match w[0] {
        "nat2" => bin!(w[1], w[2], n(w[3]), n(w[4]), sn, xn, { "add" => add, add_assign; "sub" => sub, sub_assign; "mul" => mul, mul_assign; "div" => div, div_assign; "rem" => rem, rem_assign;
            "and" => bitand, bitand_assign; "or" => bitor, bitor_assign; "xor" => bitxor, bitxor_assign; "andnot" => and_not, and_not_assign; }),
        "natu" => prim!(w[1], w[2], n(w[3]), w[4].parse::<u32>().unwrap(), sn, xn, { "add" => add, add_assign; "sub" => sub, sub_assign; "mul" => mul, mul_assign; "div" => div, div_assign; "rem" => rem, rem_assign; }),
        "nats" => prim!(w[1], w[2], n(w[3]), w[4].parse::<usize>().unwrap(), sn, xn, { "shl" => shl, shl_assign; "shr" => shr, shr_assign; }),
        "big2" => bin!(w[1], w[2], i(w[3]), i(w[4]), si, xi, { "add" => add, add_assign; "sub" => sub, sub_assign; "mul" => mul, mul_assign; "div" => div, div_assign; "rem" => rem, rem_assign;
            "and" => bitand, bitand_assign; "or" => bitor, bitor_assign; "xor" => bitxor, bitxor_assign; "andnot" => and_not, and_not_assign; }),
        "bigs" => prim!(w[1], w[2], i(w[3]), w[4].parse::<usize>().unwrap(), si, xi, { "shl" => shl, shl_assign; "shr" => shr, shr_assign; }),
        "rat2" => bin!(w[1], w[2], r(w[3]), r(w[4]), sr, xr, { "add" => add, add_assign; "sub" => sub, sub_assign; "mul" => mul, mul_assign; "div" => div, div_assign; }),
        "euclid" => { let (a, b) = (i(w[3]), i(w[4])); let d = a.deep_clone(); let o = match (w[1], w[2]) {
            ("div", "v") => xi(a.div_euclid(b.clone())), ("rem", "v") => xi(a.rem_euclid(b.clone())),
            ("div", "s") => xi(a.div_euclid(a.clone())), ("rem", "s") => xi(a.rem_euclid(a.clone())),
            ("div", "a") => { let mut x = a.deep_clone(); x.div_euclid_assign(b.clone()); si(&x) } ("rem", "a") => { let mut x = a.deep_clone(); x.rem_euclid_assign(b.clone()); si(&x) }
            ("div", "t") => { let mut x = a.deep_clone(); let y = x.clone(); x.div_euclid_assign(y); si(&x) } ("rem", "t") => { let mut x = a.deep_clone(); let y = x.clone(); x.rem_euclid_assign(y); si(&x) }
            _ => "BAD".into() }; format!("{} {} {} {}", o, si(&a), si(&b), si(&d)) }
        "sws" => { let (a, b) = (n(w[2]), n(w[3])); let d = a.deep_clone(); let o = match w[1] {
            "v" => { let (z, g) = a.sub_with_sign(b.clone()); format!("{} {}", xn(z), g) }
            "s" => { let (z, g) = a.sub_with_sign(a.clone()); format!("{} {}", xn(z), g) }
            "a" => { let mut x = a.deep_clone(); let g = x.sub_assign_with_sign(b.clone()); format!("{} {}", sn(&x), g) }
            _ => { let mut x = a.deep_clone(); let y = x.clone(); let g = x.sub_assign_with_sign(y); format!("{} {}", sn(&x), g) } };
            format!("{} {} {} {}", o, sn(&a), sn(&b), sn(&d)) }
        "nat1" => { let a = n(w[2]); let o = match w[1] {
            "not" => xn(!a.clone()), "sqr" => xn(a.sqr()), "sqrt" => xn(a.sqrt()), "bits" => a.bits_len().to_string(), "tz" => a.trailling_zeros().to_string(),
            "le" => hex(&a.to_le_bytes()), "be" => hex(&a.to_be_bytes()), "cle" => { let mut v = vec![1, 2, 3]; a.copy_to_le(&mut v); hex(&v) } "cbe" => { let mut v = vec![1, 2, 3]; a.copy_to_be(&mut v); hex(&v) }
            "deep" => xn(a.deep_clone()), "isnan" => a.is_nan().to_string(), _ => "BAD".into() }; format!("{} {}", o, sn(&a)) }
        "bit" => { let a = n(w[1]); format!("{:?} {}", a.is_set_bit(w[2].parse().unwrap()), sn(&a)) }
        "ibit" => { let a = i(w[1]); format!("{:?} {}", a.is_set_bit(w[2].parse().unwrap()), si(&a)) }
        "big1" => { let a = i(w[2]); let o = match w[1] {
            "neg" => xi(-a.clone()), "not" => xi(!a.clone()), "sqr" => xi(a.sqr()), "sqrt" => xi(a.sqrt()), "abs" => xi(a.abs()), "bits" => a.bits_len().to_string(),
            "le" => hex(&a.to_le_bytes()), "be" => hex(&a.to_be_bytes()), "cle" => { let mut v = vec![1, 2, 3]; a.copy_to_le(&mut v); hex(&v) } "cbe" => { let mut v = vec![1, 2, 3]; a.copy_to_be(&mut v); hex(&v) }
            "deep" => xi(a.deep_clone()), "sgn" => format!("{:?},{},{},{},{}", a.signnum(), a.is_negative(), a.is_positive(), a.is_natural(), a.is_nan()), _ => "BAD".into() }; format!("{} {}", o, si(&a)) }
        "ncmp" => { let (a, b) = (n(w[1]), n(w[2])); format!("{} {} {} {} {} {} {}", so(a.partial_cmp(&b)), a == b, a != b, a < b, a <= b, a > b, a >= b) }
        "icmp" => { let (a, b) = (i(w[1]), i(w[2])); format!("{} {} {} {} {} {} {}", so(a.partial_cmp(&b)), a == b, a != b, a < b, a <= b, a > b, a >= b) }
        "rcmp" => { let (a, b) = (r(w[1]), r(w[2])); format!("{} {} {} {} {} {} {}", so(a.partial_cmp(&b)), a == b, a != b, a < b, a <= b, a > b, a >= b) }
        "ncmpp" => { let a = n(w[2]); macro_rules! c { ($T:ty) => {{ let b = w[3].parse::<$T>().unwrap(); format!("{} {} {} {} {} {} {}", so(a.partial_cmp(&b)), a == b, a != b, a < b, a <= b, a > b, a >= b) }} }
            match w[1] { "u8" => c!(u8), "u16" => c!(u16), "u32" => c!(u32), "u64" => c!(u64), "u128" => c!(u128), _ => c!(usize) } }
        "icmpp" => { let a = i(w[1]); let b = w[2].parse::<u32>().unwrap(); format!("{} {}", a == b, a != b) }
        "ncmp2" => { // equality of two different computations: (a+b)-b == a, (a<<k)>>k == a, a*b == b*a, raw form included
            let (a, b) = (n(w[1]), n(w[2])); let k: usize = w[3].parse().unwrap();
            let v = [ (a.clone() + b.clone()) - b.clone(), (a.clone() << k) >> k, (a.clone() ^ b.clone()) ^ b.clone(), (a.clone() + 7u32) - 7u32, (a.clone() * 3u32) / 3u32, a.clone().and_not(b.clone()) | (a.clone() & b.clone()) ];
            let mut o: Vec<String> = v.iter().map(|x| format!("{}:{}", *x == a, sn(x))).collect(); let (p, q) = (a.clone() * b.clone(), b.clone() * a.clone()); o.push(format!("{}:{}", p == q, sn(&a))); o.join(" ") }
        "fromp" => { macro_rules! c { ($T:ty) => {{ let b = w[3].parse::<$T>().unwrap(); if w[1] == "n" { sn(&Nat::from(b)) } else if w[1] == "r" { sr(&Rat::from(b)) } else { si(&BigInt::from(b)) } }} }
            macro_rules! ci { ($T:ty) => {{ let b = w[3].parse::<$T>().unwrap(); if w[1] == "r" { sr(&Rat::from(b)) } else { si(&BigInt::from(b)) } }} }
            match w[2] { "u8" => c!(u8), "u16" => c!(u16), "u32" => c!(u32), "u64" => c!(u64), "u128" => c!(u128), "usize" => c!(usize), "i8" => ci!(i8), "i16" => ci!(i16), "i32" => ci!(i32), "i64" => ci!(i64), "i128" => ci!(i128), _ => ci!(isize) } }
        "fromb" => { let b = unhex(w[2]); match w[1] { "nle" => sn(&Nat::from_le_bytes(&b)), "nbe" => sn(&Nat::from_be_bytes(&b)), "ns" => sn(&Nat::from(&b[..])), "nv" => sn(&Nat::from(b)), "nr" => sn(&Nat::from(&b)),
            "ile" => si(&BigInt::from_le_bytes(&b)), "ibe" => si(&BigInt::from_be_bytes(&b)), "is" => si(&BigInt::from(&b[..])), "iv" => si(&BigInt::from(b)), _ => si(&BigInt::from(&b)) } }
        "fromw" => { let b = limbs(w[2]); match w[1] { "nv" => sn(&Nat::from(b)), "nr" => sn(&Nat::from(&b)), "ns" => sn(&Nat::from(&b[..])), "iv" => si(&BigInt::from(b)), "ir" => si(&BigInt::from(&b)), "is" => si(&BigInt::from(&b[..])), _ => { let m = Nat::from(b); let z = BigInt::from(m.clone()); format!("{} {}", xi(z), sn(&m)) } } }
        "fromn" => { let a = n(w[1]); let z = Rat::from(a.clone()); let y = Rat::from(BigInt::from(a.clone())); format!("{} {} {}", xr(z), xr(y), sn(&a)) }
        "nmulk" => { let (a, b) = (n(w[1]), n(w[2])); format!("{} {} {}", xn(a.mul_karatsuba(&b)), sn(&a), sn(&b)) }
        "npow" => { let (a, b) = (n(w[2]), n(w[3])); let z = if w[1] == "s" { a.pow(a.clone()) } else { a.pow(b.clone()) }; format!("{} {} {}", xn(z), sn(&a), sn(&b)) }
        "npowmod" | "nexp" => { let (a, b, m) = (n(w[2]), n(w[3]), n(w[4])); let (b, m) = match w[1] { "v" => (b, m), "b" => (a.clone(), m), "m" => (b, a.clone()), "x" => (m.clone(), m), _ => (a.clone(), a.clone()) };
            let z = if w[0] == "nexp" { a.exp(&b, &m) } else { a.pow_mod(b.clone(), m.clone()) }; format!("{} {} {} {}", xn(z), sn(&a), sn(&b), sn(&m)) }
        "iexp" => { let (a, b, m) = (i(w[2]), i(w[3]), i(w[4])); let (b, m) = match w[1] { "v" => (b, m), "b" => (a.clone(), m), "m" => (b, a.clone()), _ => (m.clone(), m) }; let z = a.exp(&b, &m); format!("{} {} {} {}", xi(z), si(&a), si(&b), si(&m)) }
        "gcd" => { let (a, b) = (i(w[2]), i(w[3])); let (d, x, y) = if w[1] == "s" { a.gcd(a.clone()) } else { a.gcd(b.clone()) }; format!("{} {} {} {} {}", xi(d), xi(x), xi(y), si(&a), si(&b)) }
        "modinv" => { let (a, b) = (i(w[1]), i(w[2])); let z = a.mod_inverse(b.clone()); format!("{} {} {}", xi(z), si(&a), si(&b)) }
        "lincong" => { let (a, b, m) = (i(w[1]), i(w[2]), i(w[3])); let z = a.solve_mod_linear_equation(b.clone(), m.clone());
            format!("{} {} {} {}", match z { None => "none".to_string(), Some(v) => format!("[{}]", v.into_iter().map(xi).collect::<Vec<_>>().join(";")) }, si(&a), si(&b), si(&m)) }
        "jacobi" => { let (a, b) = (i(w[1]), i(w[2])); format!("{:?} {} {}", a.jacobi(&b), si(&a), si(&b)) }
        "modsqrt" => { let (a, b) = (i(w[1]), i(w[2])); let z = a.mod_sqrt(&b); format!("{} {} {}", z.map(xi).unwrap_or("none".into()), si(&a), si(&b)) }
        "mulrange" => si(&BigInt::mul_range(w[1].parse().unwrap(), w[2].parse().unwrap())),
        "binom" => si(&BigInt::binomial(w[1].parse().unwrap(), w[2].parse().unwrap())),
        "parse" => { let t = parse_txt(w[2]); match w[1] { "n" => Nat::from_str(&t).map(|x| sn(&x)).unwrap_or("err".into()), "i" => BigInt::from_str(&t).map(|x| si(&x)).unwrap_or("err".into()), _ => Rat::from_str(&t).map(|x| sr(&x)).unwrap_or("err".into()) } }
        "fmt" => { macro_rules! f { ($x:expr) => {{ let x = $x; match w[2] { "d" => format!("{}", x), "b" => format!("{:b}", x), "o" => format!("{:o}", x), "x" => format!("{:x}", x), "X" => format!("{:X}", x), "?" => format!("{:?}", x),
            "#d" => format!("{:#}", x), "#b" => format!("{:#b}", x), "#o" => format!("{:#o}", x), "#x" => format!("{:#x}", x), "#X" => format!("{:#X}", x), _ => "BAD".into() } }} }
            match w[1] { "n" => { let a = n(w[3]); let o = f!(&a); format!("{} {}", o, sn(&a)) } "i" => { let a = i(w[3]); let o = f!(&a); format!("{} {}", o, si(&a)) } _ => { let a = r(w[3]); let o = f!(&a); format!("{} {}", o, sr(&a)) } } }
        "ratf" => match Rat::from_frac(w[1].parse().unwrap(), w[2].parse().unwrap()) { Ok(x) => sr(&x), Err(_) => "err".into() },
        "ratb" => { let (a, b) = (i(w[1]), i(w[2])); let z = Rat::from_frac_bigint(&a, &b); format!("{} {} {}", match z { Ok(x) => xr(x), Err(_) => "err".into() }, si(&a), si(&b)) }
        "rat1" => { let a = r(w[2]); let o = match w[1] { "neg" => xr(-a.clone()), "abs" => xr(a.abs()), "inv" => match a.inv() { Ok(x) => xr(x), Err(_) => "err".into() }, "sgn" => format!("{:?},{:?}", a.signnum(), a.is_integer()),
            "f64" => f64o(a.to_f64()), "f32" => { let (f, e) = a.to_f32(); format!("{:x} {}", f.to_bits(), e) } "deep" => xr(a.deep_clone()), _ => "BAD".into() }; format!("{} {}", o, sr(&a)) }
        "ratfromf64" => sr(&Rat::from(f64::from_bits(u64::from_str_radix(w[1], 16).unwrap()))),
        "ratfromf32" => sr(&Rat::from(f32::from_bits(u32::from_str_radix(w[1], 16).unwrap()))),
        "lcg" => match w[1] { "u32" => lcg!(u32, w), "u64" => lcg!(u64, w), _ => lcg!(usize, w) },
        "lf" => match w[1] { "u32" => lf!(u32, w), "u64" => lf!(u64, w), _ => lf!(usize, w) },
        "mt" => match w[1] { "u32" => mt!(u32, w), "u64" => mt!(u64, w), _ => mt!(usize, w) },
        "macro" => { let (s32, s64) = (Sd(w[2].parse::<u64>().unwrap() as u32), Sd(w[2].parse::<u64>().unwrap())); let k = w[3].parse().unwrap(); match w[1] {
            "minstd0" => drawn(&mut rmath::minstd_rand0!(s32).unwrap(), k, Sd(s32.0)), "minstd" => drawn(&mut rmath::minstd_rand!(s32).unwrap(), k, Sd(s32.0)),
            "mt19937" => drawn(&mut rmath::mt19937!(s32).unwrap(), k, Sd(s32.0)), "mt19937_64" => drawn(&mut rmath::mt19937_64!(s64).unwrap(), k, Sd(s64.0)),
            "ranlux24" => drawn(&mut rmath::ranlux24_base!(s32).unwrap(), k, Sd(s32.0)), _ => drawn(&mut rmath::ranlux48_base!(s64).unwrap(), k, Sd(s64.0)) } }
        "nrandom" => { let a = n(w[1]); let mut g = Script::new(w[2]); let z = a.random(&mut g); format!("{} {} {}", xn(z), g.calls, sn(&a)) }
        "irandom" => { let a = i(w[1]); let mut g = Script::new(w[2]); let z = a.random(&mut g); format!("{} {} {}", xi(z), g.calls, si(&a)) }
        "prime" => { let a = n(w[1]); let mut g = Script::new(w[3]); let z = a.probably_prime_test(w[2].parse().unwrap(), &mut g); format!("{} {}", z, sn(&a)) }
        "genprime" => { let mut g = Script::new(w[3]); match Nat::generate_prime(w[1].parse().unwrap(), w[2].parse().unwrap(), &mut g) { Ok(p) => { let t = p.probably_prime_test(5, &mut g); format!("{} {}", sn(&p), t) } Err(_) => "err".into() } }
        _ => "BAD".into(),
    }
}

static START: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("DRIVER_LIMIT_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(20000);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = START.load(AO::SeqCst);
        if s != 0 && now() > s + limit { std::process::exit(99); }
    });
    // operations recurse (gcd): give them a large stack
    std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let out = std::io::stdout();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let w: Vec<&str> = l.split(' ').collect();
            START.store(now(), AO::SeqCst);
            let res = std::panic::catch_unwind(|| run(&w));
            START.store(0, AO::SeqCst);
            let s = match res { Ok(s) => s, Err(e) => format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default().replace('\n', " ")) };
            let mut o = out.lock();
            writeln!(o, "{}", s).unwrap();
            o.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
