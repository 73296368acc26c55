use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len() as u64) as usize]
    }
}

/// None: panicked
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    let d = unsafe { DEPTH };
    unsafe { DEPTH = d + 1 };
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    unsafe { DEPTH = d };
    r
}
static mut DEPTH: u32 = 0;
/// panics outside quiet() are errors of this program
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if unsafe { DEPTH } == 0 {
            let own = i.location().map(|l| l.file().starts_with("src/") || l.file().contains("search/src/")).unwrap_or(true);
            // a call of /repo's code that has to succeed panicked
            let at = unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(&raw const CUR as *const u8, CURLEN)).to_string() };
            let s = if own { format!("ERROR {}", i) } else { format!("FAIL panic: {} (after: {})", i, at) };
            println!("{}", s.replace('\n', " "));
        }
    }));
}

/// A failing case: printed for the driver, and the process ends.
pub fn fail(what: &str) -> ! {
    println!("FAIL {}", what.replace('\n', " "));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join(" ")
}

/// base addresses of the three regions
pub fn bases(j: &mut monoasm::JitMemory) -> [u64; 3] {
    let mut r = [0; 3];
    let l = [j.label(), j.label(), j.label()];
    for k in 0..3 {
        // on a fresh buffer every region is at position 0
        j.bind_label_with_page(monoasm::Page(k), l[k]);
        r[k] = j.get_label_u64(l[k]);
    }
    r
}
pub const REGION: u64 = 256 * 1024 * 1024;

/// The case being executed, for the report if the process is killed by a signal.
static mut CUR: [u8; 400] = [0; 400];
static mut CURLEN: usize = 0;
pub fn current(s: &str) {
    unsafe {
        let n = s.len().min(400);
        let p = &raw mut CUR as *mut u8;
        std::ptr::copy_nonoverlapping(s.as_ptr(), p, n);
        CURLEN = n;
    }
}
extern "C" {
    fn signal(n: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn alarm(n: u32) -> u32;
    pub fn madvise(p: *mut u8, n: usize, a: i32) -> i32;
}
extern "C" fn on_signal(n: i32) {
    unsafe {
        let m: &[u8] = if n == 14 { b"FAIL no progress (endless loop) in " } else { b"FAIL memory fault in " };
        write(1, m.as_ptr(), m.len());
        write(1, &raw const CUR as *const u8, CURLEN);
        write(1, b"\n".as_ptr(), 1);
        _exit(1)
    }
}
pub fn guard() {
    unsafe {
        for n in [4, 7, 8, 11, 5, 14] {
            signal(n, on_signal as *const () as usize);
        }
    }
}
/// to be called when progress was made
pub fn tick() {
    unsafe {
        alarm(60);
    }
}
