//! Stops threads for a few microseconds at arbitrary points, by signals, so that a free-running program goes
//! through many more schedules than the machine would produce by itself.
use std::sync::{
    atomic::{AtomicBool, AtomicU32, Ordering::SeqCst},
    Mutex, Once,
};
use std::time::{Duration, Instant};

static PAUSE_US: AtomicU32 = AtomicU32::new(10);

extern "C" fn handler(_: libc::c_int) {
    // only async-signal-safe calls; errno is kept
    unsafe {
        let e = libc::__errno_location();
        let old = *e;
        let us = PAUSE_US.load(SeqCst);
        let mut t = std::mem::MaybeUninit::<libc::timespec>::zeroed().assume_init();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        let end = t.tv_sec as i64 * 1_000_000_000 + t.tv_nsec as i64 + us as i64 * 1000;
        loop {
            libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
            if t.tv_sec as i64 * 1_000_000_000 + t.tv_nsec as i64 >= end {
                break;
            }
            std::hint::spin_loop();
        }
        *e = old;
    }
}
fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = handler as extern "C" fn(libc::c_int) as usize;
        a.sa_flags = libc::SA_RESTART;
        libc::sigemptyset(&mut a.sa_mask);
        libc::sigaction(libc::SIGUSR2, &a, std::ptr::null_mut());
    });
}

pub struct Jitter {
    tids: Mutex<Vec<libc::c_long>>,
    stop: AtomicBool,
}
/// A thread takes part while it holds this.
pub struct Part<'a>(&'a Jitter, libc::c_long);
impl Drop for Part<'_> {
    fn drop(&mut self) {
        self.0.tids.lock().unwrap().retain(|t| *t != self.1);
    }
}
impl Jitter {
    pub fn join(&self) -> Part<'_> {
        let t = unsafe { libc::syscall(libc::SYS_gettid) };
        // an interrupted sleep is resumed for its remaining time plus the timer slack: with the usual 50 us of
        // slack it would never end
        unsafe { libc::prctl(libc::PR_SET_TIMERSLACK, 1u64) };
        self.tids.lock().unwrap().push(t);
        Part(self, t)
    }
}
/// Runs a function whose threads may take part; `pause` in microseconds, 0 = no stops at all.
pub fn jitter<T>(pause: u32, seed: u64, f: impl FnOnce(&Jitter) -> T) -> T {
    install();
    let j = Jitter { tids: Mutex::new(vec![]), stop: AtomicBool::new(pause == 0) };
    struct Stop<'a>(&'a Jitter);
    impl Drop for Stop<'_> {
        fn drop(&mut self) {
            self.0.stop.store(true, SeqCst);
        }
    }
    PAUSE_US.store(pause, SeqCst);
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut x = seed | 1;
            // a program that takes longer may be blocked, which the signals must not hide
            let last = Instant::now() + Duration::from_secs(5);
            while !j.stop.load(SeqCst) && Instant::now() < last {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                {
                    let g = j.tids.lock().unwrap();
                    if !g.is_empty() {
                        let t = g[(x >> 20) as usize % g.len()];
                        unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid() as libc::c_long, t, libc::SIGUSR2) };
                    }
                }
                // longer than the stop, so that every thread still gets on
                let end = Instant::now() + Duration::from_nanos((pause as u64 * 1000 + 2000) * (100 + (x >> 40) % 200) / 100);
                while Instant::now() < end {
                    std::hint::spin_loop();
                }
            }
        });
        let _stop = Stop(&j);
        f(&j)
    })
}
