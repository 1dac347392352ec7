// harness-macro: w be le pa
// harness-macro: wl be le pa
// harness-macro: wk go
// harness-macro: h3 be le pa
use crate::sup::*;
use nom::Input;
// ---- a user's input type: a window of a larger buffer, whose elements are the bytes of the buffer xored with a key
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Win<'a> { pub all: &'a [u8], pub from: usize, pub to: usize, pub key: u8, pub tag: u64 }
#[derive(Clone)]
pub struct It<'a> { all: &'a [u8], from: usize, to: usize, key: u8 }
impl<'a> Iterator for It<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.from >= self.to { return None; }
        let b = self.all[self.from] ^ self.key;
        self.from += 1;
        Some(b)
    }
}
impl<'a> Input for Win<'a> {
    type Item = u8;
    type Iter = It<'a>;
    type IterIndices = std::iter::Enumerate<It<'a>>;
    fn input_len(&self) -> usize { self.to - self.from }
    fn take(&self, n: usize) -> Self { assert!(n <= self.to - self.from); Win { to: self.from + n, ..*self } }
    fn take_from(&self, n: usize) -> Self { assert!(n <= self.to - self.from); Win { from: self.from + n, ..*self } }
    fn take_split(&self, n: usize) -> (Self, Self) { (self.take_from(n), self.take(n)) }
    fn position<P: Fn(u8) -> bool>(&self, p: P) -> Option<usize> {
        let mut k = self.from;
        while k < self.to {
            if p(self.all[k] ^ self.key) { return Some(k - self.from); }
            k += 1;
        }
        None
    }
    fn iter_elements(&self) -> It<'a> { It { all: self.all, from: self.from, to: self.to, key: self.key } }
    fn iter_indices(&self) -> Self::IterIndices { self.iter_elements().enumerate() }
    fn slice_index(&self, n: usize) -> Result<usize, Needed> {
        let l = self.to - self.from;
        if n <= l { Ok(n) } else { Err(Needed::new(n - l)) }
    }
}
impl<'a> InputSlice for Win<'a> {}
/// an error type of the user's for it
#[derive(Debug)]
pub struct WErr<'a>(pub Win<'a>, pub ErrorKind);
impl<'a> ParseError<Win<'a>> for WErr<'a> {
    fn from_error_kind(i: Win<'a>, k: ErrorKind) -> Self { WErr(i, k) }
    fn append(_: Win<'a>, _: ErrorKind, o: Self) -> Self { o }
}
impl<'a, X> FromExternalError<Win<'a>, X> for WErr<'a> {
    fn from_external_error(i: Win<'a>, k: ErrorKind, _: X) -> Self { WErr(i, k) }
}
pub trait WObs<'a> { fn o(self) -> (Win<'a>, ErrorKind); }
impl<'a> WObs<'a> for WErr<'a> { fn o(self) -> (Win<'a>, ErrorKind) { (self.0, self.1) } }
impl<'a> WObs<'a> for Error<Win<'a>> { fn o(self) -> (Win<'a>, ErrorKind) { (self.input, self.code) } }
#[inline(always)]
fn wat(w: &Win, r: &Win) -> usize {
    if r.all.as_ptr() != w.all.as_ptr() || r.all.len() != w.all.len() || r.key != w.key || r.tag != w.tag || r.from < w.from || r.from > r.to || r.to != w.to {
        vfail(9)
    }
    r.from - w.from
}
#[inline(always)]
pub fn wconv<'a, T, X: WObs<'a>>(w: Win<'a>, r: IResult<Win<'a>, T, X>) -> R<(T, usize)> {
    match r {
        Ok((m, v)) => Ok((v, wat(&w, &m))),
        Err(NErr::Incomplete(n)) => Err(F::Inc(needed(n))),
        Err(NErr::Error(e)) => { let (m, k) = e.o(); Err(F::Err(k, wat(&w, &m))) }
        Err(NErr::Failure(e)) => { let (m, k) = e.o(); Err(F::Fail(k, wat(&w, &m))) }
    }
}
/// a window of the buffer: up to 7 bytes are left out before it, up to 15 after it
#[inline(always)]
pub fn win(i: &[u8], a: u64, b: u64) -> Win<'_> {
    let from = (a & 7) as usize;
    let from = if from <= i.len() { from } else { 0 };
    let cut = (b & 15) as usize;
    let cut = if cut <= i.len() - from { cut } else { 0 };
    Win { all: i, from, to: i.len() - cut, key: 0, tag: a ^ b }
}
macro_rules! w {
    ($name:ident, $t:ty) => { w!($name, $t, Error<Win<'a>>); };
    ($name:ident, $t:ty, $x:ty) => {
        pub mod $name {
            use super::*;
            #[inline(never)]
            pub fn real<'a>(w: Win<'a>, m: u8) -> IResult<Win<'a>, $t, $x> { match m { 0 => <$t as Parse<Win<'a>, $x>>::parse(w), 1 => <$t as Parse<Win<'a>, $x>>::parse_be(w), _ => <$t as Parse<Win<'a>, $x>>::parse_le(w) } }
            #[inline(never)]
            pub fn oracle<'a>(i: &'a [u8], m: u8) -> R<($t, usize)> {
                let mut r = Rd::new(i);
                r.mode = m;
                let v = <$t as Ref<'a>>::rd(&mut r, if m == 2 { L } else { B })?;
                Ok((v, r.pos))
            }
            #[inline(always)]
            fn go(i: &[u8], a: u64, b: u64, m: u8) -> u64 { let w = win(i, a, b); same(wconv(w, real(w, m)), oracle(&i[w.from..w.to], m)) }
            #[inline(never)]
            pub fn be(i: &[u8], a: u64, b: u64) -> u64 { go(i, a, b, 1) }
            #[inline(never)]
            pub fn le(i: &[u8], a: u64, b: u64) -> u64 { go(i, a, b, 2) }
            #[inline(never)]
            pub fn pa(i: &[u8], a: u64, b: u64) -> u64 { go(i, a, b, 0) }
        }
    };
}
// the bytes of a masked input are not those of the buffer
macro_rules! wk {
    ($name:ident, $t:ty, $u:ty) => {
        pub mod $name {
            use super::*;
            #[inline(never)]
            pub fn real<'a>(w: Win<'a>, m: u8) -> IResult<Win<'a>, $t, WErr<'a>> { match m { 0 => <$t>::parse(w), 1 => <$t>::parse_be(w), _ => <$t>::parse_le(w) } }
            #[inline(never)]
            pub fn go<'a>(i: &'a [u8], a: u64, b: u64) -> u64 {
                let w = Win { key: (a >> 8) as u8, ..win(i, 0, b) };
                let m = (a & 3) as u8 % 3;
                let mut r = Rd::new(&i[..w.to]);
                let want: R<$u> = r.g(if m == 2 { L } else { B });
                let mut k: $u = 0;
                let mut j = 0;
                while j < std::mem::size_of::<$u>() { k |= (w.key as $u) << (8 * j); j += 1; }
                let want = match want { Ok(v) => Ok(((v ^ k) as $t, r.pos)), Err(x) => Err(x) };
                same(wconv(w, real(w, m)), want)
            }
        }
    };
}
wk!(k_u8, u8, u8); wk!(k_i16, i16, u16); wk!(k_u32, u32, u32); wk!(k_i64, i64, u64); wk!(k_u128, u128, u128);
w!(u8_, u8); w!(u16_, u16); w!(u32_, u32); w!(u64_, u64); w!(u128_, u128, WErr<'a>);
w!(i8_, i8, WErr<'a>); w!(i16_, i16); w!(i32_, i32, WErr<'a>); w!(i64_, i64); w!(i128_, i128);
/// a parser of the user's, for any input type; its three methods differ
#[derive(PartialEq, Clone, Copy, Default)]
pub struct Gen3 { pub m: u8, pub v: u8 }
impl<I: InputSlice, X: ParseError<I>> Parse<I, X> for Gen3 {
    fn parse(i: I) -> IResult<I, Self, X> { g3(i, 0) }
    fn parse_be(i: I) -> IResult<I, Self, X> { g3(i, 1) }
    fn parse_le(i: I) -> IResult<I, Self, X> { g3(i, 2) }
}
fn g3<I: InputSlice, X: ParseError<I>>(i: I, m: u8) -> IResult<I, Gen3, X> {
    let (r, v) = <u8 as Parse<I, X>>::parse(i.clone())?;
    match v {
        250 => Err(NErr::Failure(X::from_error_kind(i, ErrorKind::Digit))),
        251 => Err(NErr::Error(X::from_error_kind(r, ErrorKind::Alpha))),
        _ => Ok((r, Gen3 { m, v })),
    }
}
impl<'a> Ref<'a> for Gen3 {
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
        let m = if r.mode < 9 { r.mode } else if e == L { 2 } else { 1 };
        let p = r.pos;
        let v: u8 = r.g(e)?;
        match v {
            250 => Err(F::Fail(ErrorKind::Digit, p)),
            251 => Err(F::Err(ErrorKind::Alpha, p + 1)),
            _ => Ok(Gen3 { m, v }),
        }
    }
}
w!(o_u32, Option<u32>); w!(o_g, Option<Gen3>); w!(o_o, Option<Option<u16>>, WErr<'a>); w!(o_p, Option<(u16, Gen3)>);
w!(p_a, (u8, u32)); w!(p_b, ((u16, Gen3), u64), WErr<'a>); w!(p_c, (Option<u32>, u16));
w!(v_u16_n7, Vec<u16>); w!(v_g_n5, Vec<Gen3>, WErr<'a>); w!(v_p_n7, Vec<(u8, u16)>); w!(x_v_o_n5, Vec<Option<u16>>); w!(p_v_n6, (u8, Vec<u16>));
w!(a_u16, [u16; 3]); w!(a_g, [Gen3; 3]); w!(a_a, [[u16; 2]; 2], WErr<'a>); w!(a_p, [(u8, u16); 2]); w!(o_a, Option<[u32; 2]>); w!(v_a_n7, Vec<[u8; 2]>); w!(a_0, [u8; 0]);
// LengthData hands out a part of the user's input
macro_rules! wl {
    ($name:ident, $t:ty, $l:ty, $x:ty) => {
        pub mod $name {
            use super::*;
            #[inline(never)]
            pub fn real<'a>(w: Win<'a>, m: u8) -> IResult<Win<'a>, $t, $x> { match m { 0 => <$t>::parse(w), 1 => <$t>::parse_be(w), _ => <$t>::parse_le(w) } }
            #[inline(always)]
            fn one(i: &[u8], a: u64, b: u64, m: u8) -> u64 {
                let w = win(i, a, b);
                let mut r = Rd::new(&i[w.from..w.to]);
                let want = (|| { let n: $l = r.g(if m == 2 { L } else { B })?; let p = r.pos; r.take(n as usize)?; Ok((p, r.pos)) })();
                match (wconv(w, real(w, m)), want) {
                    (Ok((d, p)), Ok((s, q))) => {
                        if p != q { vfail(3) }
                        let d = d.data;
                        if d.all.as_ptr() != w.all.as_ptr() || d.all.len() != w.all.len() || d.key != w.key || d.tag != w.tag || d.from != w.from + s || d.to != w.from + q { vfail(2) }
                        OK
                    }
                    (Err(x), Err(y)) => same_f(x, y),
                    _ => vfail(1),
                }
            }
            #[inline(never)]
            pub fn be(i: &[u8], a: u64, b: u64) -> u64 { one(i, a, b, 1) }
            #[inline(never)]
            pub fn le(i: &[u8], a: u64, b: u64) -> u64 { one(i, a, b, 2) }
            #[inline(never)]
            pub fn pa(i: &[u8], a: u64, b: u64) -> u64 { one(i, a, b, 0) }
        }
    };
}
wl!(l_8, LengthData<u8, Win<'a>>, u8, Error<Win<'a>>); wl!(l_16, LengthData<u16, Win<'a>>, u16, WErr<'a>);
wl!(l_32, LengthData<u32, Win<'a>>, u32, Error<Win<'a>>); wl!(l_64, LengthData<u64, Win<'a>>, u64, WErr<'a>);

// ---- parsers of the user's which do not have all three methods: a method that is not written is `parse`
macro_rules! user {
    ($t:ident, $pe:expr $(, $m:ident $e:expr)*) => {
        /// (method, value)
        #[derive(PartialEq, Debug, Clone, Copy, Default)]
        pub struct $t(pub u8, pub u16);
        impl<'a, X: ParseError<&'a [u8]>> Parse<&'a [u8], X> for $t {
            fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, X> { let (i, v) = usr(i, $pe == 2)?; Ok((i, $t($pe, v))) }
            $(fn $m(i: &'a [u8]) -> IResult<&'a [u8], Self, X> { let (i, v) = usr(i, $e == 2)?; Ok((i, $t($e, v))) })*
        }
    };
}
fn usr<'a, X: ParseError<&'a [u8]>>(i: &'a [u8], le: bool) -> IResult<&'a [u8], u16, X> {
    if i.len() < 2 { return Err(NErr::Incomplete(Needed::new(2 - i.len()))); }
    let v = if le { i[0] as u16 | (i[1] as u16) << 8 } else { i[1] as u16 | (i[0] as u16) << 8 };
    if v == 0xff00 { return Err(NErr::Error(X::from_error_kind(&i[1..], ErrorKind::Alpha))); }
    Ok((&i[2..], v))
}
user!(OnlyP, 2);                    // its own byte order is little-endian, whatever is declared around it
user!(NoLe, 2, parse_be 1);
user!(NoBe, 3, parse_le 2);
macro_rules! user_ref {
    ($($t:ident, $be:expr, $le:expr, $pa:expr);*) => {$(
        impl<'a> Ref<'a> for $t {
            fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
                let m = match r.mode { 0 => $pa, 1 => $be, 2 => $le, _ => if e == L { $le } else { $be } };
                r.need(2)?;
                let (a, b) = (r.all[r.pos] as u16, r.all[r.pos + 1] as u16);
                let v = if m == 2 { b << 8 | a } else { a << 8 | b };
                if v == 0xff00 { return Err(F::Err(ErrorKind::Alpha, r.pos + 1)); }
                r.pos += 2;
                Ok($t(m, v))
            }
        }
    )*};
}
user_ref!(OnlyP, 2, 2, 2; NoLe, 1, 2, 2; NoBe, 3, 2, 3);
