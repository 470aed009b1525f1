//! Stand-ins for the SHAKE functions the C code calls.  They remember what was absorbed and take
//! the output from a source chosen by the scenario (the hash function itself by default).
pub struct Hash {
    pub kind: u16,
    pub absorbed: Vec<u8>,
    pub squeezed: usize,
    pub done: bool,
    pub released: bool,
}

pub type Source = fn(&Hash, &mut [u8]);

static mut SOURCE: Source = shake;
static mut LOG: Vec<Hash> = Vec::new();
static mut MISUSE: bool = false;

pub fn source(f: Source) {
    unsafe { SOURCE = f }
}

/// every hash computation so far
pub fn log() -> &'static Vec<Hash> {
    unsafe { &*core::ptr::addr_of!(LOG) }
}

pub fn clear() {
    unsafe { (*core::ptr::addr_of_mut!(LOG)).clear() }
}

/// absorbing after finalisation, squeezing before it, use after release
pub fn misused() -> bool {
    unsafe { MISUSE }
}

/// the hash function itself
pub fn shake(h: &Hash, out: &mut [u8]) {
    use sha3::digest::{ExtendableOutput, Input, XofReader};
    let mut o = vec![0u8; h.squeezed + out.len()];
    if h.kind == 128 {
        let mut s = sha3::Shake128::default();
        s.input(&h.absorbed);
        s.xof_result().read(&mut o);
    } else {
        let mut s = sha3::Shake256::default();
        s.input(&h.absorbed);
        s.xof_result().read(&mut o);
    }
    out.copy_from_slice(&o[h.squeezed..]);
}

fn open(kind: u16) -> usize {
    let l = unsafe { &mut *core::ptr::addr_of_mut!(LOG) };
    l.push(Hash { kind, absorbed: Vec::new(), squeezed: 0, done: false, released: false });
    l.len() - 1
}

unsafe fn get<'a>(c: *mut u64) -> &'a mut Hash {
    let l = &mut *core::ptr::addr_of_mut!(LOG);
    &mut l[*c as usize - 1]
}

unsafe fn absorb(c: *mut u64, p: *const u8, n: usize) {
    let h = get(c);
    MISUSE |= h.done | h.released;
    h.absorbed.extend_from_slice(core::slice::from_raw_parts(p, n));
}

unsafe fn squeeze(c: *mut u64, p: *mut u8, n: usize) {
    let h = get(c);
    MISUSE |= !h.done | h.released;
    let mut o = vec![0u8; n];
    SOURCE(h, &mut o);
    core::ptr::copy_nonoverlapping(o.as_ptr(), p, n);
    h.squeezed += n;
}

unsafe fn once(kind: u16, out: *mut u8, outlen: usize, input: *const u8, inlen: usize) {
    let mut c = open(kind) as u64 + 1;
    absorb(&mut c, input, inlen);
    get(&mut c).done = true;
    squeeze(&mut c, out, outlen);
    get(&mut c).released = true;
}

macro_rules! stubs {
    ($kind:literal, $init:ident, $absorb:ident, $fin:ident, $squeeze:ident, $rel:ident, $once:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $init(c: *mut u64) {
            *c = open($kind) as u64 + 1;
        }
        #[no_mangle]
        pub unsafe extern "C" fn $absorb(c: *mut u64, p: *const u8, n: usize) {
            absorb(c, p, n)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $fin(c: *mut u64) {
            let h = get(c);
            MISUSE |= h.done | h.released;
            h.done = true;
        }
        #[no_mangle]
        pub unsafe extern "C" fn $squeeze(p: *mut u8, n: usize, c: *mut u64) {
            squeeze(c, p, n)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $rel(c: *mut u64) {
            get(c).released = true;
        }
        #[no_mangle]
        pub unsafe extern "C" fn $once(out: *mut u8, outlen: usize, input: *const u8, inlen: usize) {
            once($kind, out, outlen, input, inlen)
        }
    };
}
stubs!(128, stub_shake128_inc_init, stub_shake128_inc_absorb, stub_shake128_inc_finalize, stub_shake128_inc_squeeze, stub_shake128_inc_ctx_release, stub_shake128);
stubs!(256, stub_shake256_inc_init, stub_shake256_inc_absorb, stub_shake256_inc_finalize, stub_shake256_inc_squeeze, stub_shake256_inc_ctx_release, stub_shake256);
