use crate::sup::*;
#[inline(never)]
pub fn oracle<'a, T: Ref<'a>>(i: &'a [u8], e: E) -> R<(T, usize)> {
    let mut r = Rd::new(i);
    let v = T::rd(&mut r, e)?;
    Ok((v, r.pos))
}
