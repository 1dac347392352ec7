//! Reference parser ("oracle") and comparison.  Written without nom combinators and without
//! nom-derive: a cursor over the outermost input, bytes combined one at a time.
pub use nom::error::{Error, ErrorKind, FromExternalError, ParseError};
pub use nom::number::Endianness;
pub use nom::{Err as NErr, IResult, Needed};
pub use nom_derive::*;
pub use std::marker::PhantomData;

/// byte order
#[derive(Clone, Copy, PartialEq)]
pub enum E {
    B,
    L,
}
pub use E::{B, L};

#[derive(Clone, Copy)]
pub enum F {
    Inc(usize),
    Err(ErrorKind, usize),
    Fail(ErrorKind, usize),
}
pub type R<T> = Result<T, F>;

#[derive(Clone, Copy)]
pub struct Rd<'a> {
    /// outermost input
    pub all: &'a [u8],
    /// offset in `all` where the current parser's own input starts
    pub start: usize,
    /// current offset in `all`
    pub pos: usize,
    /// method called, when a provided parser is called directly: 0 parse, 1 parse_be, 2 parse_le, 9 not relevant
    pub mode: u8,
}

impl<'a> Rd<'a> {
    pub fn new(all: &'a [u8]) -> Self {
        Rd { all, start: 0, pos: 0, mode: 9 }
    }
    #[inline(always)]
    pub fn g<T: Ref<'a>>(&mut self, e: E) -> R<T> {
        T::rd(self, e)
    }
    pub fn left(&self) -> usize {
        self.all.len() - self.pos
    }
    /// length of the current parser's own input
    pub fn own(&self) -> usize {
        self.all.len() - self.start
    }
    pub fn rest(&self) -> &'a [u8] {
        &self.all[self.pos..]
    }
    pub fn need(&self, n: usize) -> R<()> {
        if self.left() < n {
            Err(F::Inc(n - self.left()))
        } else {
            Ok(())
        }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        self.need(n)?;
        let s = &self.all[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn skip(&mut self, n: usize) -> R<()> {
        self.take(n).map(|_| ())
    }
    pub fn align(&mut self, n: usize) -> R<()> {
        if n == 0 {
            return Ok(()); // no constraint, like 1
        }
        let off = self.pos - self.start;
        let m = off % n;
        if m == 0 {
            Ok(())
        } else {
            self.skip(n - m)
        }
    }
    pub fn mv(&mut self, d: isize) -> R<()> {
        let off = (self.pos - self.start) as i128;
        let t = off + d as i128;
        if t < 0 {
            return Err(F::Err(ErrorKind::TooLarge, self.pos));
        }
        if t > self.own() as i128 {
            return Err(F::Inc((t - self.own() as i128) as usize));
        }
        self.pos = self.start + t as usize;
        Ok(())
    }
    pub fn mvabs(&mut self, p: usize) -> R<()> {
        if p > self.own() {
            return Err(F::Inc(p - self.own()));
        }
        self.pos = self.start + p;
        Ok(())
    }
    pub fn err<T>(&self, k: ErrorKind) -> R<T> {
        Err(F::Err(k, self.pos))
    }
    pub fn error_if(&self, c: bool) -> R<()> {
        if c {
            self.err(ErrorKind::Verify)
        } else {
            Ok(())
        }
    }
    pub fn exact(&self) -> R<()> {
        self.error_if(self.left() != 0)
    }
    pub fn tag(&mut self, t: &[u8]) -> R<&'a [u8]> {
        let mut k = 0;
        while k < t.len() {
            if k >= self.left() {
                return Err(F::Inc(t.len() - self.left()));
            }
            if self.all[self.pos + k] != t[k] {
                return self.err(ErrorKind::Tag);
            }
            k += 1;
        }
        self.take(t.len())
    }
    /// own start = current position while `f` runs
    #[inline(always)]
    pub fn nest<T>(&mut self, f: impl FnOnce(&mut Rd<'a>) -> R<T>) -> R<T> {
        let s = self.start;
        self.start = self.pos;
        let v = f(self);
        self.start = s;
        v
    }
    /// Incomplete becomes an error located where `f` started
    #[inline(always)]
    pub fn complete<T>(&mut self, f: impl FnOnce(&mut Rd<'a>) -> R<T>) -> R<T> {
        let p = self.pos;
        match f(self) {
            Err(F::Inc(_)) => Err(F::Err(ErrorKind::Complete, p)),
            x => x,
        }
    }
    #[inline(always)]
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Rd<'a>) -> R<T>) -> R<Option<T>> {
        let p = self.pos;
        match f(self) {
            Ok(v) => Ok(Some(v)),
            Err(F::Fail(k, q)) => Err(F::Fail(k, q)),
            Err(_) => {
                self.pos = p;
                Ok(None)
            }
        }
    }
    #[inline(always)]
    pub fn many<T>(&mut self, mut f: impl FnMut(&mut Rd<'a>) -> R<T>) -> R<Vec<T>> {
        let mut v = Vec::new();
        loop {
            let p = self.pos;
            match f(self) {
                Ok(x) => {
                    if self.pos == p {
                        return Err(F::Err(ErrorKind::Many0, p));
                    }
                    v.push(x)
                }
                Err(F::Fail(k, q)) => return Err(F::Fail(k, q)),
                Err(_) => {
                    self.pos = p;
                    return Ok(v);
                }
            }
        }
    }
    #[inline(always)]
    pub fn count<T>(&mut self, n: usize, mut f: impl FnMut(&mut Rd<'a>) -> R<T>) -> R<Vec<T>> {
        let mut v = Vec::new();
        let mut k = 0;
        while k < n {
            v.push(f(self)?);
            k += 1;
        }
        Ok(v)
    }
    #[inline(always)]
    pub fn cond<T>(&mut self, c: bool, f: impl FnOnce(&mut Rd<'a>) -> R<T>) -> R<Option<T>> {
        if c {
            Ok(Some(f(self)?))
        } else {
            Ok(None)
        }
    }
    #[inline(always)]
    pub fn verify<T>(
        &mut self,
        f: impl FnOnce(&mut Rd<'a>) -> R<T>,
        p: impl FnOnce(&T) -> bool,
    ) -> R<T> {
        let q = self.pos;
        let v = f(self)?;
        if p(&v) {
            Ok(v)
        } else {
            Err(F::Err(ErrorKind::Verify, q))
        }
    }
}

pub trait Ref<'a>: Sized {
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self>;
}

macro_rules! ref_int {
    ($($t:ty, $u:ty);*) => {$(
        impl<'a> Ref<'a> for $t {
            #[inline(always)]
            fn rd(r: &mut Rd<'a>, e: E) -> R<$t> {
                const N: usize = std::mem::size_of::<$t>();
                r.need(N)?;
                let mut v: $u = 0;
                let mut k = 0;
                while k < N {
                    let sh = if e == B { N - 1 - k } else { k };
                    v |= (r.all[r.pos + k] as $u) << (8 * sh);
                    k += 1;
                }
                r.pos += N;
                Ok(v as $t)
            }
        }
    )*};
}
ref_int!(u8,u8; u16,u16; u32,u32; u64,u64; u128,u128; i8,u8; i16,u16; i32,u32; i64,u64; i128,u128);
impl<'a> Ref<'a> for f32 {
    fn rd(r: &mut Rd<'a>, e: E) -> R<f32> {
        Ok(f32::from_bits(u32::rd(r, e)?))
    }
}
impl<'a> Ref<'a> for f64 {
    fn rd(r: &mut Rd<'a>, e: E) -> R<f64> {
        Ok(f64::from_bits(u64::rd(r, e)?))
    }
}
impl<'a, T: Ref<'a>> Ref<'a> for Option<T> {
    #[inline(always)]
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
        r.opt(|r| T::rd(r, e))
    }
}
impl<'a, T: Ref<'a>> Ref<'a> for Vec<T> {
    #[inline(always)]
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
        r.many(|r| T::rd(r, e))
    }
}
impl<'a, T: Ref<'a>, U: Ref<'a>> Ref<'a> for (T, U) {
    #[inline(always)]
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
        let a = T::rd(r, e)?;
        let b = U::rd(r, e)?;
        Ok((a, b))
    }
}
impl<'a, T: Ref<'a> + Copy + Default, const N: usize> Ref<'a> for [T; N] {
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
        let mut o = [T::default(); N];
        let mut k = 0;
        while k < N {
            // with `alloc`, elements of an array are complete: a short input is an error at the element
            let p = r.pos;
            o[k] = if crate::ALLOC { r.complete(|r| T::rd(r, e))? } else { T::rd(r, e)? };
            if crate::ALLOC && r.pos == p {
                // documented nom rule of repetition: an element has to make progress
                return Err(F::Err(ErrorKind::ManyMN, p));
            }
            k += 1;
        }
        Ok(o)
    }
}
impl<'a> Ref<'a> for String {
    fn rd(r: &mut Rd<'a>, _e: E) -> R<Self> {
        let n = u32::rd(r, B)? as usize;
        let p = r.pos;
        let s = r.take(n)?;
        match std::str::from_utf8(s) {
            Ok(s) => Ok(s.to_owned()),
            Err(_) => Err(F::Err(ErrorKind::MapRes, p)),
        }
    }
}
impl<'a, T> Ref<'a> for PhantomData<T> {
    fn rd(_: &mut Rd<'a>, _e: E) -> R<Self> {
        Ok(PhantomData)
    }
}

/// The only way a harness reports a disagreement.
#[inline(never)]
#[cold]
pub fn vfail(code: u64) -> ! {
    panic!("MISMATCH {}", code)
}

/// Errors whose kind and position can be observed
pub trait Obs<'a>: ParseError<&'a [u8]> {
    fn input(&self) -> &'a [u8];
    fn kind(&self) -> ErrorKind;
}
impl<'a> Obs<'a> for Error<&'a [u8]> {
    fn input(&self) -> &'a [u8] {
        self.input
    }
    fn kind(&self) -> ErrorKind {
        self.code
    }
}
/// A second, user-written error type
#[derive(Debug, PartialEq)]
pub struct MyErr<'a> {
    pub at: &'a [u8],
    pub what: ErrorKind,
    pub depth: u8,
}
impl<'a> ParseError<&'a [u8]> for MyErr<'a> {
    fn from_error_kind(at: &'a [u8], what: ErrorKind) -> Self {
        MyErr { at, what, depth: 0 }
    }
    fn append(_: &'a [u8], _: ErrorKind, other: Self) -> Self {
        MyErr { depth: other.depth.wrapping_add(1), ..other }
    }
}
impl<'a, X> FromExternalError<&'a [u8], X> for MyErr<'a> {
    fn from_external_error(at: &'a [u8], what: ErrorKind, _: X) -> Self {
        MyErr { at, what, depth: 0 }
    }
}
impl<'a> Obs<'a> for MyErr<'a> {
    fn input(&self) -> &'a [u8] {
        self.at
    }
    fn kind(&self) -> ErrorKind {
        self.what
    }
}
/// error types as tuples are supported by nom as well
impl<'a> Obs<'a> for (&'a [u8], ErrorKind) {
    fn input(&self) -> &'a [u8] {
        self.0
    }
    fn kind(&self) -> ErrorKind {
        self.1
    }
}

/// Position of `rem` in `i`; `rem` must be a suffix of `i` (same memory).
#[inline(always)]
pub fn at(i: &[u8], rem: &[u8]) -> usize {
    let d = (rem.as_ptr() as usize).wrapping_sub(i.as_ptr() as usize);
    if d > i.len() || i.len() - d != rem.len() {
        vfail(9)
    }
    d
}

#[inline(always)]
pub fn needed(n: Needed) -> usize {
    match n {
        Needed::Unknown => 0,
        Needed::Size(n) => n.get(),
    }
}

#[inline(always)]
pub fn conv<'a, T, X: Obs<'a>>(i: &'a [u8], r: IResult<&'a [u8], T, X>) -> R<(T, usize)> {
    match r {
        Ok((rem, v)) => Ok((v, at(i, rem))),
        Err(NErr::Incomplete(n)) => Err(F::Inc(needed(n))),
        Err(NErr::Error(e)) => Err(F::Err(e.kind(), at(i, e.input()))),
        Err(NErr::Failure(e)) => Err(F::Fail(e.kind(), at(i, e.input()))),
    }
}

pub const OK: u64 = 1;
pub const INC: u64 = 2;
pub const ERR: u64 = 3;
pub const FAIL: u64 = 4;

/// Compare two complete results; the digest summarises the common outcome.
#[inline(always)]
pub fn same<T: PartialEq>(got: R<(T, usize)>, want: R<(T, usize)>) -> u64 {
    match (got, want) {
        (Ok((v, p)), Ok((w, q))) => {
            if p != q {
                vfail(3)
            }
            if v != w {
                vfail(2)
            }
            OK | ((p as u64) << 16)
        }
        (Err(x), Err(y)) => same_f(x, y),
        _ => vfail(1),
    }
}
#[inline(always)]
pub fn same_f(x: F, y: F) -> u64 {
    match (x, y) {
        (F::Inc(m), F::Inc(n)) => {
            if m != n {
                vfail(5)
            }
            INC | ((m as u64) << 16)
        }
        (F::Err(k, p), F::Err(l, q)) => {
            if k as u32 != l as u32 {
                vfail(4)
            }
            if p != q {
                vfail(3)
            }
            ERR | ((k as u64) << 8) | ((p as u64) << 16)
        }
        (F::Fail(k, p), F::Fail(l, q)) => {
            if k as u32 != l as u32 {
                vfail(4)
            }
            if p != q {
                vfail(3)
            }
            FAIL | ((k as u64) << 8) | ((p as u64) << 16)
        }
        _ => vfail(1),
    }
}

/// Equality by bit pattern for types holding floats
#[macro_export]
macro_rules! bits_eq {
    ($t:ty; $($f:tt)*) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool { true $( && self.$f.to_bits() == o.$f.to_bits() )* }
        }
    };
}

/// Reference parser of a type (used when it is nested and by `h!`).
#[macro_export]
macro_rules! r {
    ($t:ty, |$r:ident, $e:ident| $body:expr) => {
        impl<'a> Ref<'a> for $t {
            #[inline(always)]
            fn rd(r0: &mut Rd<'a>, $e: E) -> R<Self> {
                r0.nest(|$r| -> R<$t> { Ok($body) })
            }
        }
    };
}

/// Harnesses for the three methods of a type that has a `Ref` implementation.
#[macro_export]
macro_rules! h {
    ($name:ident, $t:ty) => {
        pub mod $name {
            use super::*;
            #[inline(never)]
            pub fn real_be<'a>(i: &'a [u8]) -> IResult<&'a [u8], $t> { <$t>::parse_be(i) }
            #[inline(never)]
            pub fn real_le<'a>(i: &'a [u8]) -> IResult<&'a [u8], $t> { <$t>::parse_le(i) }
            #[inline(never)]
            pub fn real_pa<'a>(i: &'a [u8]) -> IResult<&'a [u8], $t> { <$t>::parse(i) }
            #[inline(never)]
            pub fn oracle<'a>(i: &'a [u8], e: E) -> R<($t, usize)> {
                let mut r = Rd::new(i);
                let v = <$t as Ref<'a>>::rd(&mut r, e)?;
                Ok((v, r.pos))
            }
            #[inline(never)]
            pub fn be(i: &[u8], _: u64, _: u64) -> u64 { same(conv(i, real_be(i)), oracle(i, B)) }
            #[inline(never)]
            pub fn le(i: &[u8], _: u64, _: u64) -> u64 { same(conv(i, real_le(i)), oracle(i, L)) }
            #[inline(never)]
            pub fn pa(i: &[u8], _: u64, _: u64) -> u64 { same(conv(i, real_pa(i)), oracle(i, B)) }
        }
    };
}
/// `r!` and `h!`
#[macro_export]
macro_rules! t {
    ($name:ident, $t:ty, |$r:ident, $e:ident| $body:expr) => {
        r!($t, |$r, $e| $body);
        h!($name, $t);
    };
}
/// Types whose functions take extra arguments (ExtraArgs, selectors): `hx!(name, T, (x: u8, y: u16), |r,e| ...)`
/// The arguments are taken from the symbolic words `a` and `b`.
#[macro_export]
macro_rules! hx {
    ($name:ident, $t:ty, |$a:ident, $b:ident| ($($x:ident : $xt:ty = $xv:expr),*), |$r:ident, $e:ident| $body:expr) => {
        pub mod $name {
            use super::*;
            #[inline(never)]
            pub fn real_be<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_be(i, $($x),*) }
            #[inline(never)]
            pub fn real_le<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_le(i, $($x),*) }
            #[inline(never)]
            pub fn real_pa<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse(i, $($x),*) }
            #[inline(never)]
            pub fn oracle<'a>(i: &'a [u8], $e: E, $($x: $xt),*) -> R<($t, usize)> {
                let mut rd = Rd::new(i);
                let $r = &mut rd;
                let v = (|| -> R<$t> { Ok($body) })()?;
                Ok((v, rd.pos))
            }
            #[inline(never)]
            pub fn be(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same(conv(i, real_be(i, $($x),*)), oracle(i, B, $($x),*)) }
            #[inline(never)]
            pub fn le(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same(conv(i, real_le(i, $($x),*)), oracle(i, L, $($x),*)) }
            #[inline(never)]
            pub fn pa(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same(conv(i, real_pa(i, $($x),*)), oracle(i, B, $($x),*)) }
        }
    };
}
/// A single comparison written by hand: `hc!(name, |i, a, b| -> u64 expression)`
#[macro_export]
macro_rules! hc {
    ($name:ident, |$i:ident, $a:ident, $b:ident| $body:expr) => {
        pub mod $name {
            use super::*;
            #[inline(never)]
            pub fn go<'a>($i: &'a [u8], $a: u64, $b: u64) -> u64 {
                $body
            }
        }
    };
}

/// A user-written parser with three different methods, that rejects some values, some of them for good
#[derive(PartialEq, Debug, Clone, Copy, Default)]
pub struct Tri { pub m: u8, pub v: u16 }
fn tri<'a, X: ParseError<&'a [u8]>>(i: &'a [u8], m: u8) -> IResult<&'a [u8], Tri, X> {
    if i.len() < 2 {
        return Err(NErr::Incomplete(Needed::new(2 - i.len())));
    }
    let v = if m == 2 { i[0] as u16 | (i[1] as u16) << 8 } else { i[1] as u16 | (i[0] as u16) << 8 };
    match v {
        0xfffe => Err(NErr::Failure(X::from_error_kind(i, ErrorKind::Digit))),
        0xff00 => Err(NErr::Error(X::from_error_kind(&i[1..], ErrorKind::Alpha))),
        v => Ok((&i[2..], Tri { m, v })),
    }
}
impl<'a, X: ParseError<&'a [u8]>> Parse<&'a [u8], X> for Tri {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, X> { tri(i, 0) }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, X> { tri(i, 1) }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, X> { tri(i, 2) }
}
impl<'a> Ref<'a> for Tri {
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
        let m = if r.mode < 9 { r.mode } else if e == L { 2 } else { 1 };
        r.need(2)?;
        let (a, b) = (r.all[r.pos] as u16, r.all[r.pos + 1] as u16);
        let v = if m == 2 { b << 8 | a } else { a << 8 | b };
        if v == 0xfffe {
            return Err(F::Fail(ErrorKind::Digit, r.pos));
        }
        if v == 0xff00 {
            return Err(F::Err(ErrorKind::Alpha, r.pos + 1));
        }
        r.pos += 2;
        Ok(Tri { m, v })
    }
}
/// The three methods of a provided parser around elements that tell which of their methods was called
#[macro_export]
macro_rules! h3 {
    ($name:ident, $t:ty) => {
        pub mod $name {
            use super::*;
            #[inline(never)]
            pub fn real<'a>(i: &'a [u8], m: u8) -> IResult<&'a [u8], $t> { match m { 0 => <$t>::parse(i), 1 => <$t>::parse_be(i), _ => <$t>::parse_le(i) } }
            #[inline(never)]
            pub fn oracle<'a>(i: &'a [u8], m: u8) -> R<($t, usize)> {
                let mut r = Rd::new(i);
                r.mode = m;
                let v = <$t as Ref<'a>>::rd(&mut r, if m == 2 { L } else { B })?;
                Ok((v, r.pos))
            }
            #[inline(never)]
            pub fn be(i: &[u8], _: u64, _: u64) -> u64 { same(conv(i, real(i, 1)), oracle(i, 1)) }
            #[inline(never)]
            pub fn le(i: &[u8], _: u64, _: u64) -> u64 { same(conv(i, real(i, 2)), oracle(i, 2)) }
            #[inline(never)]
            pub fn pa(i: &[u8], _: u64, _: u64) -> u64 { same(conv(i, real(i, 0)), oracle(i, 0)) }
        }
    };
}

/// Equality of a type and of its twin: the same definition written in another way
pub trait Eqv<O: ?Sized> { fn eqv(&self, o: &O) -> bool; }
#[macro_export]
macro_rules! eqv { ($($t:ty)*) => { $(impl Eqv<$t> for $t { #[inline(always)] fn eqv(&self, o: &$t) -> bool { self == o } })* } }
eqv!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize bool ErrorKind);
eqv!(String);
impl Eqv<f32> for f32 { fn eqv(&self, o: &f32) -> bool { self.to_bits() == o.to_bits() } }
impl Eqv<f64> for f64 { fn eqv(&self, o: &f64) -> bool { self.to_bits() == o.to_bits() } }
impl<'a> Eqv<&'a [u8]> for &'a [u8] { fn eqv(&self, o: &&'a [u8]) -> bool { self.len() == o.len() && self.as_ptr() == o.as_ptr() } }
impl<T> Eqv<PhantomData<T>> for PhantomData<T> { fn eqv(&self, _: &PhantomData<T>) -> bool { true } }
impl<A, C: Eqv<A>> Eqv<Option<A>> for Option<C> { #[inline(always)] fn eqv(&self, o: &Option<A>) -> bool { match (self, o) { (Some(x), Some(y)) => x.eqv(y), (None, None) => true, _ => false } } }
impl<A, C: Eqv<A>> Eqv<Vec<A>> for Vec<C> { #[inline(always)] fn eqv(&self, o: &Vec<A>) -> bool { if self.len() != o.len() { return false; } let mut k = 0; while k < o.len() { if !self[k].eqv(&o[k]) { return false; } k += 1; } true } }
impl<A, C: Eqv<A>, const N: usize> Eqv<[A; N]> for [C; N] { #[inline(always)] fn eqv(&self, o: &[A; N]) -> bool { let mut k = 0; while k < N { if !self[k].eqv(&o[k]) { return false; } k += 1; } true } }
impl<A, C: Eqv<A>, X, Y: Eqv<X>> Eqv<(A, X)> for (C, Y) { #[inline(always)] fn eqv(&self, o: &(A, X)) -> bool { self.0.eqv(&o.0) && self.1.eqv(&o.1) } }
/// Same outcome of two parsers of twin types
#[inline(always)]
pub fn same2<A, T: Eqv<A>>(got: R<(T, usize)>, want: R<(A, usize)>) -> u64 {
    match (got, want) {
        (Ok((v, p)), Ok((w, q))) => { if p != q { vfail(3) } if !v.eqv(&w) { vfail(2) } OK | ((p as u64) << 16) }
        (Err(x), Err(y)) => same_f(x, y),
        _ => vfail(1),
    }
}
