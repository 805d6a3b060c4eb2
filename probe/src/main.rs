//! One client program, built in every feature configuration of cam-geom and in
//! debug and release mode. It runs every operation over a fixed lattice of
//! inputs and writes the results as binary records. Without the "std" feature it
//! is a true no_std program: linking std by accident does not compile.
#![cfg_attr(not(feature = "hosted"), no_std)]
#![cfg_attr(not(feature = "hosted"), no_main)]
#[cfg(feature = "alloc")]
extern crate alloc;
mod ops;

/// Buffered writer of records: case, operation, count, values.
pub struct Out {
    buf: [u8; 1 << 16],
    n: usize,
}
impl Out {
    const fn new() -> Out {
        Out { buf: [0; 1 << 16], n: 0 }
    }
    fn put(&mut self, w: u64) {
        if self.n + 8 > self.buf.len() {
            self.flush();
        }
        self.buf[self.n..self.n + 8].copy_from_slice(&w.to_le_bytes());
        self.n += 8;
    }
    fn flush(&mut self) {
        sys::write(&self.buf[..self.n]);
        self.n = 0;
    }
    pub fn record(&mut self, case: usize, op: u32, vals: &[f64]) {
        self.put(((case as u64) << 32) | ((op as u64) << 16) | vals.len() as u64);
        for v in vals {
            self.put(v.to_bits());
        }
    }
}
#[cfg(not(feature = "hosted"))]
mod sys {
    #[link(name = "c")]
    extern "C" {
        #[link_name = "write"]
        fn cwrite(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    pub fn write(mut b: &[u8]) {
        while !b.is_empty() {
            let n = unsafe { cwrite(1, b.as_ptr(), b.len()) };
            if n <= 0 {
                unsafe { _exit(3) }
            }
            b = &b[n as usize..];
        }
    }
    #[no_mangle]
    pub extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
        let level = if argc > 1 { (unsafe { **argv.add(1) } - b'0') as usize } else { 0 };
        super::ops::all(level, super::out());
        super::out().flush();
        0
    }
    // core and alloc are compiled with unwinding; nothing here unwinds
    #[no_mangle]
    extern "C" fn rust_eh_personality() {}
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        unsafe {
            super::out().flush();
            _exit(101)
        }
    }
    #[cfg(feature = "alloc")]
    mod heap {
        use core::alloc::{GlobalAlloc, Layout};
        extern "C" {
            fn aligned_alloc(a: usize, n: usize) -> *mut u8;
            fn free(p: *mut u8);
        }
        struct C;
        unsafe impl GlobalAlloc for C {
            unsafe fn alloc(&self, l: Layout) -> *mut u8 {
                let a = l.align().max(16);
                aligned_alloc(a, (l.size() + a - 1) / a * a)
            }
            unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
                free(p)
            }
        }
        #[global_allocator]
        static HEAP: C = C;
    }
}
#[cfg(feature = "hosted")]
mod sys {
    use std::io::Write;
    pub fn write(b: &[u8]) {
        if std::io::stdout().write_all(b).is_err() {
            std::process::exit(3)
        }
    }
}
static mut OUT: Out = Out::new();
fn out() -> &'static mut Out {
    unsafe { &mut *core::ptr::addr_of_mut!(OUT) }
}
#[cfg(feature = "hosted")]
fn main() {
    std::panic::set_hook(Box::new(|_| {
        out().flush();
        std::process::exit(101)
    }));
    let level = std::env::args().nth(1).map_or(0, |s| (s.as_bytes()[0] - b'0') as usize);
    ops::all(level, out());
    out().flush();
}
