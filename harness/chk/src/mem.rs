//! Reading this process' own memory, whatever its protection.
use std::os::unix::io::AsRawFd;

pub struct OwnMem {
    mem: std::fs::File,
    pagemap: std::fs::File,
    buf: *mut u8,
}
const CH: usize = 1 << 20;

fn pread(fd: i32, buf: *mut u8, len: usize, at: u64) -> isize {
    unsafe { libc::pread(fd, buf as *mut _, len, at as i64) }
}

impl OwnMem {
    /// None where the system does not offer it.
    pub fn open() -> Option<OwnMem> {
        let mem = std::fs::File::open("/proc/self/mem").ok()?;
        let pagemap = std::fs::File::open("/proc/self/pagemap").ok()?;
        let buf = unsafe { libc::mmap(std::ptr::null_mut(), CH, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_ANONYMOUS | libc::MAP_PRIVATE, -1, 0) };
        if buf == libc::MAP_FAILED {
            return None;
        }
        let m = OwnMem { mem, pagemap, buf: buf as *mut u8 };
        // self test on a page without access rights
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_ANONYMOUS | libc::MAP_PRIVATE, -1, 0) } as *mut u8;
        let ok = unsafe {
            *p = 0x5d;
            libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
            let r = m.read(p as usize, 1) == Some(vec![0x5d]);
            libc::munmap(p as *mut _, 4096);
            r
        };
        ok.then_some(m)
    }
    pub fn read(&self, addr: usize, len: usize) -> Option<Vec<u8>> {
        let mut v = vec![0u8; len];
        (pread(self.mem.as_raw_fd(), v.as_mut_ptr(), len, addr as u64) == len as isize).then_some(v)
    }
    /// Addresses at which the bytes `needle[i] ^ mask` lie. The needle is given masked so that it is not found itself.
    pub fn find(&self, needle: &[u8], mask: u8) -> Vec<usize> {
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let mut out = vec![];
        let n = needle.len();
        for l in maps.lines() {
            let mut it = l.split_whitespace();
            let (Some(r), Some(perm)) = (it.next(), it.next()) else { continue };
            let path = it.nth(3).unwrap_or("");
            if path.starts_with("[v") || (path.starts_with('/') && !perm.contains('w')) {
                continue;
            }
            let (Some(a), Some(b)) = (r.split('-').next(), r.split('-').nth(1)) else { continue };
            let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
            // runs of present pages
            let pages = (b - a) / 4096;
            let mut pm = vec![0u8; 8 * 4096];
            let mut run: Option<usize> = None;
            let mut flush = |s: usize, e: usize| {
                let mut at = s;
                while at < e {
                    let len = (e - at).min(CH);
                    let lo = self.buf as usize;
                    if at < lo + CH && lo < at + len {
                        // the scan's own window
                        if at >= lo && at < lo + CH {
                            at = lo + CH;
                            continue;
                        }
                    }
                    let len = if at < lo && at + len > lo { lo - at } else { len };
                    if pread(self.mem.as_raw_fd(), self.buf, len, at as u64) == len as isize {
                        let s = unsafe { std::slice::from_raw_parts(self.buf, len) };
                        let f = needle[0] ^ mask;
                        for i in 0..len.saturating_sub(n - 1) {
                            if s[i] == f && (1..n).all(|k| s[i + k] == needle[k] ^ mask) {
                                out.push(at + i);
                            }
                        }
                    }
                    if len < n {
                        break;
                    }
                    at += if at + len >= e { len } else { len - (n - 1) };
                }
            };
            let mut p = 0;
            while p < pages {
                let k = (pages - p).min(4096);
                let got = pread(self.pagemap.as_raw_fd(), pm.as_mut_ptr(), 8 * k, ((a / 4096 + p) * 8) as u64);
                let got = (got.max(0) as usize) / 8;
                if got == 0 {
                    break;
                }
                for i in 0..got {
                    let e = u64::from_le_bytes(pm[8 * i..8 * i + 8].try_into().unwrap());
                    let present = e >> 62 != 0;
                    match (present, run) {
                        (true, None) => run = Some(a + (p + i) * 4096),
                        (false, Some(s)) => {
                            flush(s, a + (p + i) * 4096);
                            run = None;
                        }
                        _ => {}
                    }
                }
                p += got;
            }
            if let Some(s) = run {
                flush(s, b);
            }
        }
        // the window holds copies of what was read
        unsafe { std::ptr::write_bytes(self.buf, 0, CH) };
        out
    }
}
impl OwnMem {
    /// Present pages of writable or protected private mappings.
    pub fn pages(&self) -> std::collections::BTreeSet<usize> {
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let mut out = std::collections::BTreeSet::new();
        let mut pm = vec![0u8; 8 * 4096];
        for l in maps.lines() {
            let mut it = l.split_whitespace();
            let (Some(r), Some(perm)) = (it.next(), it.next()) else { continue };
            let path = it.nth(3).unwrap_or("");
            if path.starts_with('/') || path.starts_with('[') || perm.contains('x') {
                continue;
            }
            let (Some(a), Some(b)) = (r.split('-').next(), r.split('-').nth(1)) else { continue };
            let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
            let pages = (b - a) / 4096;
            let mut p = 0;
            while p < pages {
                let k = (pages - p).min(4096);
                let got = pread(self.pagemap.as_raw_fd(), pm.as_mut_ptr(), 8 * k, ((a / 4096 + p) * 8) as u64);
                let got = (got.max(0) as usize) / 8;
                if got == 0 {
                    break;
                }
                for i in 0..got {
                    let e = u64::from_le_bytes(pm[8 * i..8 * i + 8].try_into().unwrap());
                    if e >> 62 != 0 {
                        out.insert(a + (p + i) * 4096);
                    }
                }
                p += got;
            }
        }
        out
    }
}
impl Drop for OwnMem {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.buf as *mut _, CH) };
    }
}
