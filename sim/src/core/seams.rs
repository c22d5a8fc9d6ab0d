//! Seams owned by the simulator: wall clock, OS entropy, Gaussian draws.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

static SIM_CLOCK: AtomicBool = AtomicBool::new(false);
static SIM_NOW: AtomicI64 = AtomicI64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static SIM_ENTROPY: AtomicBool = AtomicBool::new(false);
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);

/// Every wall-clock read of the process goes through here (std resolves the symbol to this
/// definition because the executable defines it). Monotonic clocks stay real: only the
/// coordinator's watchdog uses them.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if SIM_CLOCK.load(Ordering::Relaxed)
        && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE)
    {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        unsafe {
            (*tp).tv_sec = SIM_NOW.load(Ordering::Relaxed);
            (*tp).tv_nsec = 0;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, tp) as libc::c_int }
}

/// OS entropy (HashMap keys, OsRng): seeded bytes in simulation.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if SIM_ENTROPY.load(Ordering::Relaxed) {
        ENTROPY_READS.fetch_add(1, Ordering::Relaxed);
        let p = buf as *mut u8;
        for i in 0..len {
            let mut s = ENTROPY.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
            let b = super::prng::splitmix(&mut s) as u8;
            unsafe { *p.add(i) = b };
        }
        return len as libc::ssize_t;
    }
    unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t }
}

/// Set the simulated wall clock (seconds since the epoch).
pub fn set_clock(secs: i64) {
    SIM_NOW.store(secs, Ordering::Relaxed);
    SIM_CLOCK.store(true, Ordering::Relaxed);
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.load(Ordering::Relaxed)
}
pub fn set_entropy(seed: u64) {
    ENTROPY.store(seed, Ordering::Relaxed);
    SIM_ENTROPY.store(true, Ordering::Relaxed);
}
pub fn entropy_reads() -> u64 {
    ENTROPY_READS.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- Gaussian draws

#[allow(dead_code)]
const X0: f64 = 3.910757959537090045; // ziggurat: right end of the base strip
const R: f64 = 3.654152885361008796;

/// Raw 64-bit draws that make `rand_distr::StandardNormal` (0.5, ZIGNOR) return `z`.
/// |z| < 3.65 costs one draw; larger |z| goes through the tail branch (three draws), which
/// cannot return more than about 12.2.
pub fn normal_bits(z: f64) -> Vec<u64> {
    if z.abs() < R - 1e-9 {
        let u = z / X0;
        let m = (((u + 1.0) / 2.0) * (1u64 << 52) as f64).round() as u64;
        vec![m.min((1 << 52) - 1) << 12]
    } else {
        assert!(z.abs() <= 12.0, "no such draw");
        // u beyond the strip -> zero_case; x = ln(open01)/R, returned as sign*(R - x)
        let x = (z.abs() - R).max(1e-9); // want -ln(x_)/R = x
        let target = (-x * R).exp();
        let first = if z < 0.0 { 0u64 } else { ((1u64 << 52) - 1) << 12 };
        vec![first, open01_bits(target), 0]
    }
}

/// Bits for which rand's Open01 (f64) yields (about) `v`.
fn open01_bits(v: f64) -> u64 {
    // fraction = bits >> 12, value = 1.fraction - (1 - eps/2)
    let m = (v * (1u64 << 52) as f64 - 0.5).round().max(0.0) as u64;
    m.min((1 << 52) - 1) << 12
}

thread_local! {
    static USED: Cell<u64> = const { Cell::new(0) };
}

/// Run `f` with the next Gaussian draws scripted to `zs` (then zeros). Returns the result and the
/// number of raw 64-bit draws consumed.
pub fn with_normals<T>(zs: &[f64], f: impl FnOnce() -> T) -> (T, u64) {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            let n = rand_chacha::sim::remove();
            USED.with(|u| u.set(n));
        }
    }
    let bits: Vec<u64> = zs.iter().flat_map(|z| normal_bits(*z)).collect();
    rand_chacha::sim::install(bits, Some(normal_bits(0.0)[0]));
    let g = Guard;
    let r = f();
    drop(g);
    (r, USED.with(|u| u.get()))
}

/// The draw that scripting `z` really produces (tail draws are quantised).
pub fn realised(z: f64) -> f64 {
    if z.abs() < R - 1e-9 {
        return z;
    }
    let x = ((z.abs() - R).max(1e-9) * -R).exp();
    let v = f64::from_bits((open01_bits(x) >> 12) | (1023u64 << 52)) - (1.0 - f64::EPSILON / 2.0);
    z.signum() * (R - v.ln() / R)
}
