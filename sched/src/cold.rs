//! Cold starts: the mutable statics of the crate under test, put back to what they hold when a
//! process starts, so that every explored schedule can begin before the crate's first call.
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

struct Region(usize, Vec<u8>);

static REGIONS: OnceLock<Vec<Region>> = OnceLock::new();
static COLD: AtomicBool = AtomicBool::new(false);

unsafe extern "C" fn first(info: *mut libc::dl_phdr_info, _: usize, p: *mut libc::c_void) -> libc::c_int {
    *(p as *mut usize) = (*info).dlpi_addr as usize;
    1
}

fn scan() -> Option<Vec<Region>> {
    let b = std::fs::read("/proc/self/exe").ok()?;
    let u = |o: usize, n: usize| -> Option<u64> { Some(b.get(o..o + n)?.iter().rev().fold(0u64, |a, &x| a << 8 | x as u64)) };
    let text = |o: usize| -> Option<&[u8]> { b.get(o..)?.split(|&c| c == 0).next() };
    let (shoff, shsz, shn, shstr) = (u(40, 8)? as usize, u(58, 2)? as usize, u(60, 2)? as usize, u(62, 2)? as usize);
    // (name, type, address, offset, size, link)
    let sec = |k: usize| -> Option<(u64, u64, usize, usize, u64)> { let s = shoff + k * shsz; Some((u(s, 4)?, u(s + 4, 4)?, u(s + 24, 8)? as usize, u(s + 32, 8)? as usize, u(s + 40, 4)?)) };
    let names = sec(shstr)?.2;
    let mut base = 0usize;
    unsafe { libc::dl_iterate_phdr(Some(first), &mut base as *mut usize as *mut libc::c_void) };
    let mut out = Vec::new();
    for k in 0..shn {
        let s = sec(k)?;
        if s.1 != 2 {
            continue;
        }
        let strs = sec(s.4 as usize)?.2;
        for o in (s.2..s.2 + s.3).step_by(24) {
            let (kind, shndx, at, size) = (u(o + 4, 1)? & 15, u(o + 6, 2)? as usize, u(o + 8, 8)? as usize, u(o + 16, 8)? as usize);
            if kind != 1 || size == 0 || shndx == 0 || shndx >= shn {
                continue;
            }
            let n = text(strs + u(o, 4)? as usize)?;
            let sn = text(names + sec(shndx)?.0 as usize)?;
            if (sn == b".data" || sn == b".bss") && n.windows(10).any(|w| w == b"imgproc_rs") {
                out.push(Region(base + at, unsafe { std::slice::from_raw_parts((base + at) as *const u8, size) }.to_vec()));
            }
        }
    }
    Some(out)
}

/// call before the first call into the crate under test; the number of its mutable statics
pub fn init() -> usize {
    REGIONS.get_or_init(|| scan().unwrap_or_default()).len()
}

/// the modes to explore: warm, and cold as well when the crate under test has mutable statics
pub fn modes() -> &'static [bool] {
    if init() > 0 { &[false, true] } else { &[false] }
}

pub fn set(cold: bool) {
    COLD.store(cold, Ordering::SeqCst);
}

/// before each schedule: the statics as at the start of the process (what they owned is leaked)
#[inline(never)]
pub fn restore() {
    if COLD.load(Ordering::SeqCst) {
        for r in REGIONS.get().into_iter().flatten() {
            unsafe { std::ptr::copy_nonoverlapping(r.1.as_ptr(), r.0 as *mut u8, r.1.len()) };
        }
    }
}
