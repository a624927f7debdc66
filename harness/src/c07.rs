//! C07: truncated input is reported as incomplete, never as a value.
use crate::ops::*;
use crate::*;

fn read<T: Cat>(d: &[u8], k: usize) -> (Result<T, DekuError>, usize) {
    let mut src = Src::new(d);
    let mut r = Reader::new(&mut src);
    if let Err(e) = take(&mut r, k, T::LSB) {
        return (Err(e), r.bits_read);
    }
    let v = T::from_reader_with_ctx(&mut r, ());
    (v, r.bits_read)
}
/// every cut of every input
fn cut<T: Cat>() {
    if T::ALL {
        return;
    }
    let k = if T::MAX < 10 { offset() } else { pick(0, 1) * 3 };
    let (d, n) = input_of::<T>(T::MAX, T::MAX);
    let s = behind(&d[..n], if cfg!(feature = "cfg_bits_any") { k } else { 0 }, T::LSB, 0);
    let (full, bits) = read::<T>(&s.d[..s.n], k);
    let l = pick(0, s.n);
    let (part, _) = read::<T>(&s.d[..l], k);
    obs(l as u64);
    match (full, part) {
        (Ok(a), Ok(b)) => {
            reach!("the value is complete");
            ck!(l * 8 >= bits, "no value comes from less than the bits it needs");
            ck!(a == b, "what follows a value does not change it");
        }
        (Ok(_), Err(e)) => {
            reach!("the value is cut");
            ck!(l * 8 < bits, "all that is needed is there");
            ck!(kind(&e) == E::Inc, "missing data is reported as such");
        }
        (Err(e), Err(f)) => {
            reach!("the value is refused");
            ck!(kind(&f) == kind(&e) || kind(&f) == E::Inc, "a cut is refused for the same reason or as incomplete");
        }
        (Err(e), Ok(_)) => {
            // more input does not turn a value into an error
            fail!("no value comes from part of a refused input");
        }
    }
}
/// where the reference says that data is missing, and nowhere else
fn same<T: Cat>() {
    let (d, n) = input_of::<T>(0, T::MAX);
    let got = read::<T>(&d[..n], 0).0;
    let want = T::dec(&mut Cur::new(&d[..n]));
    obs(n as u64);
    match (got, want) {
        (Err(e), w) => {
            reach!("an input is refused");
            ck!((kind(&e) == E::Inc) == (w.err() == Some(K::Inc)), "incomplete exactly when bits are missing");
        }
        (Ok(_), w) => ck!(w.is_ok(), "a value only when all of it is there"),
    }
}
/// the same, for what `from_bytes` reports
fn slice<T: Cat>() {
    let (d, n) = input_of::<T>(0, T::MAX);
    let got = T::from_bytes((&d[..n], 0));
    let want = T::dec(&mut Cur::new(&d[..n]));
    obs(n as u64);
    if let (Err(e), Err(w)) = (&got, &want) {
        ck!((kind(e) == E::Inc) == (*w == K::Inc), "incomplete exactly when bits are missing");
    }
    ck!(got.is_ok() == want.is_ok(), "a value exactly when all of it is there");
}
every!("h_cut_", cut);
every!("h_same_", same);
every!("h_slice_", slice);

// ---------------------------------------------------------------- long values
#[cfg(feature = "cfg_alloc_any")]
fn long<T: crate::big::Big>() {
    let d = crate::big::input::<T>();
    let l = crate::big::spot(T::LEN + 1);
    obs(l as u64);
    match (T::from_bytes((&d[..l], 0)), l >= T::LEN) {
        (Ok((_, v)), true) => {
            reach!("a long value is complete");
            ck!(v.is(&d), "a long value is what its bytes stand for");
        }
        (Err(e), false) => {
            reach!("a long value is cut");
            ck!(kind(&e) == E::Inc, "missing data is reported as such");
        }
        (Ok(_), false) => fail!("no value comes from less than the bits it needs"),
        (Err(_), true) => fail!("all that is needed is there"),
    }
}
#[cfg(feature = "cfg_alloc_any")]
big!("h_long_", long);

/// the number of bits that an error states
#[export_name = "h_need"]
pub extern "C" fn need() {
    let n = usize_();
    assume(n < usize::MAX - 8);
    let s = deku::error::NeedSize::new(n);
    reach!("bits that are needed");
    ck!(s.bit_size() == n, "the bits needed are as stated");
    let b = s.byte_size();
    ck!(b == n / 8 + (n % 8 != 0) as usize, "the bytes needed hold the bits");
}
/// the operations of a reader themselves
#[export_name = "h_direct"]
pub extern "C" fn direct_() {
    let k = if cfg!(feature = "cfg_bits_any") { pick(0, 7) } else { 0 };
    let lsb = pick(0, 1) == 1;
    let what = pick(0, 11);
    let d: [u8; 6] = bytes();
    let len = pick(0, 6);
    let mut s = Src::new(&d[..len]);
    let mut r = Reader::new(&mut s);
    if take(&mut r, k, lsb).is_err() {
        return;
    }
    let (got, n) = direct(&mut r, what, lsb);
    obs(r.bits_read as u64);
    if k + n <= 8 * len {
        reach!("an operation has its data");
        ck!(got.is_ok() && r.bits_read == k + n, "an operation on enough data succeeds");
    } else {
        reach!("an operation lacks data");
        match got {
            Ok(_) => fail!("an operation does not make up data"),
            Err(e) => ck!(kind(&e) == E::Inc, "missing data is reported as such by an operation"),
        }
    }
}
