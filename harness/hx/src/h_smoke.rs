use crate::rt::*;
use derivre::*;

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_smoke() {
    let mut b = RegexBuilder::new();
    let e = b.mk_regex("a(bc+|b[eh])g|.h").unwrap();
    let mut r = b.to_regex(e);
    let n = arg(0) as usize;
    let mut w = vec![];
    for _ in 0..n {
        w.push(any_u8());
    }
    let m = r.is_match_bytes(&w);
    if n == 2 {
        check(m == (w[1] == b'h' && w[0] != b'\n' && w[0] < 128), 1);
    }
    if m {
        cover(1);
    } else {
        cover(2);
    }
}
