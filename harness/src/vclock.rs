//! Virtual monotonic and wall clocks, by interposing `clock_gettime`.

#[cfg(all(feature = "plain", not(miri)))]
mod imp {
    use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

    static ON: AtomicBool = AtomicBool::new(false);
    static MONO: AtomicI64 = AtomicI64::new(0);
    static WALL_S: AtomicI64 = AtomicI64::new(0);
    static WALL_NS: AtomicI64 = AtomicI64::new(0);

    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
        if ON.load(SeqCst) {
            match clk {
                libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                    (*ts).tv_sec = WALL_S.load(SeqCst);
                    (*ts).tv_nsec = WALL_NS.load(SeqCst);
                    return 0;
                }
                libc::CLOCK_MONOTONIC
                | libc::CLOCK_MONOTONIC_RAW
                | libc::CLOCK_MONOTONIC_COARSE
                | libc::CLOCK_BOOTTIME => {
                    let v = MONO.load(SeqCst);
                    (*ts).tv_sec = v.div_euclid(1_000_000_000);
                    (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
                    return 0;
                }
                _ => {}
            }
        }
        libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
    }

    /// Switches to virtual time.
    pub fn set_virtual(mono_ns: i64, wall_s: i64, wall_ns: i64) {
        MONO.store(mono_ns, SeqCst);
        set_wall(wall_s, wall_ns);
        ON.store(true, SeqCst);
    }
    pub fn set_wall(s: i64, ns: i64) {
        WALL_S.store(s, SeqCst);
        WALL_NS.store(ns, SeqCst);
    }
    /// Lets time pass on both clocks.
    pub fn advance(ns: i64) {
        MONO.fetch_add(ns, SeqCst);
        let t = i128::from(WALL_S.load(SeqCst)) * 1_000_000_000 + i128::from(WALL_NS.load(SeqCst)) + i128::from(ns);
        set_wall(t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as i64);
    }
    pub fn real() {
        ON.store(false, SeqCst);
    }
    pub fn real_monotonic() -> f64 {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
    /// Whether the interposition is effective (checked at startup).
    pub fn works() -> bool {
        use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
        set_virtual(5_000, 77, 5);
        let a = Instant::now();
        advance(1_234);
        let ok = a.elapsed() == Duration::from_nanos(1_234)
            && SystemTime::now().duration_since(UNIX_EPOCH).ok() == Some(Duration::new(77, 1_239));
        real();
        ok
    }
}

#[cfg(not(all(feature = "plain", not(miri))))]
mod imp {
    pub fn set_virtual(_: i64, _: i64, _: i64) {}
    pub fn set_wall(_: i64, _: i64) {}
    pub fn advance(_: i64) {}
    pub fn real() {}
    pub fn real_monotonic() -> f64 {
        use std::sync::OnceLock;
        use std::time::Instant;
        static START: OnceLock<Instant> = OnceLock::new();
        START.get_or_init(Instant::now).elapsed().as_secs_f64()
    }
    pub fn works() -> bool {
        false
    }
}
pub use self::imp::*;
