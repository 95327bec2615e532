//! Source texts placed against inaccessible memory.
const PAGE: usize = 4096;

/// A region of `len` usable bytes with an inaccessible page on both sides.
pub struct Region {
    pub base: *mut u8,
    pub len: usize,
}

impl Region {
    pub fn new(min_len: usize) -> Region {
        let len = (min_len + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let m = libc::mmap(
                std::ptr::null_mut(),
                len + 2 * PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(m != libc::MAP_FAILED);
            libc::mprotect(m, PAGE, libc::PROT_NONE);
            libc::mprotect((m as *mut u8).add(PAGE + len) as *mut _, PAGE, libc::PROT_NONE);
            Region { base: (m as *mut u8).add(PAGE), len }
        }
    }

    /// Copies `t` so that its last byte is the last accessible byte.
    pub fn at_end<'a>(&'a self, t: &[u8]) -> &'a str {
        unsafe { self.place(self.len - t.len(), t) }
    }

    /// Copies `t` so that its first byte is the first accessible byte.
    pub fn at_start<'a>(&'a self, t: &[u8]) -> &'a str {
        unsafe { self.place(0, t) }
    }

    /// Copies `t` to a given offset from the start.
    pub unsafe fn place<'a>(&'a self, off: usize, t: &[u8]) -> &'a str {
        assert!(off + t.len() <= self.len);
        let p = self.base.add(off);
        std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, t.len()))
    }

    /// A view of bytes already placed.
    pub unsafe fn view<'a>(&'a self, off: usize, len: usize) -> &'a str {
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.base.add(off), len))
    }

    /// All accessible bytes. (Harness-internal; the region is never unmapped.)
    pub fn b(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }

    /// A text over bytes already placed.
    pub fn t(&self, off: usize, len: usize) -> &'static str {
        assert!(off + len <= self.len);
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.base.add(off), len)) }
    }

    /// Copies `t` to offset `off` and returns the copy.
    pub fn put(&self, off: usize, t: &str) -> &'static str {
        self.b()[off..off + t.len()].copy_from_slice(t.as_bytes());
        self.t(off, t.len())
    }
}
