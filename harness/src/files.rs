//! C13: a file system with symbolic behaviour under the real std::fs code.
//! The operating system's calls are the models below: in the symbolic run they replace the C
//! library's functions, in the native run they stand in front of them for one file name.
use crate::feed::leak;
use crate::iface::*;
use crate::lex::B;
use crate::rt::*;
use scilla_parser::{Contract, Error};
use std::path::Path;

pub struct Fs {
    /// content still to be delivered
    data: &'static [u8],
    pos: usize,
    open: bool,
    opens: u32,
    /// what the next calls do
    plan: [u8; 4],
    step: usize,
    /// position and size answers
    size: i64,
    pub failed: i32,
    pub wrong: bool,
    name: &'static [u8],
}
static mut FS: Fs = Fs { data: b"", pos: 0, open: false, opens: 0, plan: [0; 4], step: 0, size: 0, failed: 0, wrong: false, name: b"" };
#[allow(static_mut_refs)]
fn fs() -> &'static mut Fs {
    // one thread only uses it
    unsafe { &mut FS }
}
pub const FD: i32 = 1_000_000;
extern "C" {
    fn __errno_location() -> *mut i32;
}
const EINTR: i32 = 4;
const ERRS: [i32; 4] = [2, 13, 24, 21];
fn fail(e: i32) -> i32 {
    unsafe { *__errno_location() = e }
    -1
}
unsafe fn is_ours(p: *const u8) -> bool {
    let n = fs().name;
    if n.is_empty() {
        return false;
    }
    for (i, b) in n.iter().enumerate() {
        if *p.add(i) != *b {
            return false;
        }
    }
    *p.add(n.len()) == 0
}

/// plan steps: 0 as much as fits, 1 interrupted, 2 an error, n > 2: n - 2 bytes
fn take() -> u8 {
    let f = fs();
    if f.step < f.plan.len() {
        f.step += 1;
        f.plan[f.step - 1]
    } else {
        0
    }
}
fn open() -> i32 {
    let f = fs();
    f.opens += 1;
    if f.opens > 8 {
        check(false, 1307);
        end()
    }
    match take() {
        1 => fail(EINTR),
        n if n >= 2 => {
            f.failed = ERRS[(n - 2) as usize % 4];
            fail(f.failed)
        }
        _ => {
            f.open = true;
            f.pos = 0;
            FD
        }
    }
}
unsafe fn read(buf: *mut u8, n: usize) -> isize {
    let f = fs();
    if !f.open {
        f.wrong = true;
    }
    let left = f.data.len() - f.pos;
    let k = match take() {
        1 => return fail(EINTR) as isize,
        2 => {
            f.failed = 5;
            return fail(5) as isize;
        }
        0 => left.min(n),
        k => left.min(n).min(k as usize - 2),
    };
    for i in 0..k {
        *buf.add(i) = f.data[f.pos + i]
    }
    f.pos += k;
    k as isize
}
fn seek(off: i64, whence: i32) -> i64 {
    let f = fs();
    let base = match whence {
        0 => 0,
        1 => f.pos as i64,
        _ => f.data.len() as i64,
    };
    if base + off < 0 {
        return fail(22) as i64;
    }
    f.pos = ((base + off) as usize).min(f.data.len());
    base + off
}
unsafe fn size_at(p: *mut u8, len: usize, mode: usize, size: usize) -> i32 {
    let f = fs();
    if f.size < 0 {
        return fail(5);
    }
    for i in 0..len {
        *p.add(i) = 0
    }
    (p.add(size) as *mut i64).write_unaligned(f.size);
    (p.add(mode) as *mut u16).write_unaligned(0o100644);
    0
}

#[cfg(not(feature = "native"))]
pub mod model {
    use super::*;
    static mut ERRNO: i32 = 0;
    #[no_mangle]
    pub unsafe extern "C" fn __model___errno_location() -> *mut i32 {
        &raw mut ERRNO
    }
    #[no_mangle]
    pub unsafe extern "C" fn __model_open64(p: *const u8, _flags: i32, _mode: u32) -> i32 {
        if !is_ours(p) {
            fs().wrong = true;
            return fail(2);
        }
        open()
    }
    #[no_mangle]
    pub unsafe extern "C" fn __model_read(_fd: i32, b: *mut u8, n: usize) -> isize {
        read(b, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __model_lseek64(_fd: i32, o: i64, w: i32) -> i64 {
        seek(o, w)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __model_close(_fd: i32) -> i32 {
        fs().open = false;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn __model_statx(_d: i32, _p: *const u8, _f: i32, mask: u32, b: *mut u8) -> i32 {
        let r = size_at(b, 256, 28, 40);
        if r == 0 {
            (b as *mut u32).write_unaligned(mask)
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn __model_fstat64(_fd: i32, b: *mut u8) -> i32 {
        size_at(b, 144, 24, 48)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __model_stat64(_p: *const u8, b: *mut u8) -> i32 {
        size_at(b, 144, 24, 48)
    }
    pub fn keep() -> usize {
        let a: [usize; 8] = [
            __model___errno_location as usize,
            __model_open64 as usize,
            __model_read as usize,
            __model_lseek64 as usize,
            __model_close as usize,
            __model_statx as usize,
            __model_fstat64 as usize,
            __model_stat64 as usize,
        ];
        a.iter().sum()
    }
}
#[cfg(feature = "native")]
pub mod model {
    use super::*;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
        if is_ours(p) {
            return open();
        }
        if !fs().name.is_empty() {
            fs().wrong = true;
            return fail(2);
        }
        syscall(2, p, flags, mode) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
        if fd == FD {
            return super::read(b, n);
        }
        syscall(0, fd, b, n) as isize
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
        if fd == FD {
            return seek(o, w);
        }
        syscall(8, fd, o, w)
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        if fd == FD {
            fs().open = false;
            return 0;
        }
        syscall(3, fd) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(d: i32, p: *const u8, f: i32, mask: u32, b: *mut u8) -> i32 {
        if d == FD || is_ours(p) {
            let r = size_at(b, 256, 28, 40);
            if r == 0 {
                (b as *mut u32).write_unaligned(mask)
            }
            return r;
        }
        syscall(332, d, p, f, mask, b) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
        if fd == FD {
            return size_at(b, 144, 24, 48);
        }
        syscall(5, fd, b) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn stat64(p: *const u8, b: *mut u8) -> i32 {
        if is_ours(p) {
            return size_at(b, 144, 24, 48);
        }
        syscall(4, p, b) as i32
    }
}

/// UTF-8 as the standard defines it
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    while i < b.len() {
        let c = b[i];
        let tail = |i: usize| at(i) & 0xc0 == 0x80;
        let n = if c < 0x80 {
            1
        } else if c >= 0xc2 && c < 0xe0 && tail(i + 1) {
            2
        } else if c & 0xf0 == 0xe0 && tail(i + 1) && tail(i + 2) && !(c == 0xe0 && at(i + 1) < 0xa0) && !(c == 0xed && at(i + 1) >= 0xa0) {
            3
        } else if c >= 0xf0 && c < 0xf5 && tail(i + 1) && tail(i + 2) && tail(i + 3) && !(c == 0xf0 && at(i + 1) < 0x90) && !(c == 0xf4 && at(i + 1) >= 0x90) {
            4
        } else {
            return false;
        };
        i += n;
    }
    true
}

const NAME: &str = "/symx/contract.scilla";
fn long_name() -> &'static str {
    let mut s = String::from("/symx/");
    for _ in 0..500 {
        s.push('d')
    }
    leak(s)
}

/// parse the file and compare with its content
fn go(name: &'static str, data: &'static [u8], plan: [u8; 4], size: i64) {
    go_to(name.as_bytes(), data, plan, size)
}
fn go_to(name: &'static [u8], data: &'static [u8], plan: [u8; 4], size: i64) {
    use std::os::unix::ffi::OsStrExt;
    let path = Path::new(std::ffi::OsStr::from_bytes(name));
    describe(|| format!("file {path:?}: {:?}\nsystem calls from open on (0 plain, 1 interrupted, 2 failing, n+2: n bytes): {plan:?}, size reported {size}", String::from_utf8_lossy(data)));
    let good = utf8(data);
    // what the content itself says, before any file is touched
    let want = if good {
        #[cfg(feature = "native")]
        let s = std::str::from_utf8(data).unwrap();
        #[cfg(not(feature = "native"))]
        let s = unsafe { std::str::from_utf8_unchecked(data) };
        Some(s.parse::<Contract>())
    } else {
        None
    };
    *fs() = Fs { data, pos: 0, open: false, opens: 0, plan, step: 0, size, failed: 0, wrong: false, name };
    let got = Contract::parse(path);
    let (failed, open, wrong) = (fs().failed, fs().open, fs().wrong);
    fs().name = b"";
    describe(|| format!("reported: {got:?}; of the content: {want:?}; failed with {failed}"));
    check(!wrong, 1301);
    check(!open, 1302);
    if failed != 0 {
        match got {
            Err(Error::IoError(e)) => check(e.raw_os_error() == Some(failed), 1304),
            _ => check(false, 1303),
        }
        observe(1);
        reach(1301);
        return;
    }
    match want {
        None => {
            check(matches!(got, Err(Error::IoError(_))), 1305);
            observe(2);
            reach(1302)
        }
        Some(Ok(c)) => {
            match got {
                Ok(d) => check(same_contract(&c, &d), 1306),
                Err(_) => check(false, 1306),
            }
            observe(3);
            reach(1303)
        }
        Some(Err(e)) => {
            match got {
                Err(f) => check(std::mem::discriminant(&e) == std::mem::discriminant(&f) && format!("{e:?}") == format!("{f:?}"), 1306),
                Ok(_) => check(false, 1306),
            }
            observe(4);
            reach(1304)
        }
    }
}

const TEXT: &str = "scilla_version 0 (* \u{e9}\u{6f22}\u{1f600} *)\ncontract C(a : A)\r\nfield f : B = \"\u{e9}\"\n";
const BAD: &str = "scilla_version 0\r\n\ncontract C(a : )\n";

fn sizes(n: usize) -> i64 {
    match fork(6) {
        0 => n as i64,
        1 => 0,
        2 => 7,
        3 => n as i64 + 1000,
        4 => -1,
        _ => n as i64 - 1,
    }
}
/// up to two deviations among the first system calls: short reads of every length, interruptions, errors
pub fn f_calls() {
    let s = if fork(2) == 0 { TEXT } else { BAD };
    let size = sizes(s.len());
    let mut plan = [0u8; 4];
    let at = fork(3) as usize;
    if at > 0 {
        // the open goes well
        plan[at] = fork(s.len() as u32 + 4) as u8;
    } else {
        plan[0] = 1 + fork(5) as u8;
        plan[1] = fork(4) as u8;
    }
    go(NAME, s.as_bytes(), plan, size)
}
pub fn f_calls2() {
    let s = if fork(2) == 0 { TEXT } else { BAD };
    let size = sizes(s.len());
    let mut plan = [0u8; 4];
    plan[1] = fork(s.len() as u32 + 4) as u8;
    plan[2] = fork(s.len() as u32 + 4) as u8;
    plan[3] = fork(5) as u8;
    go(NAME, s.as_bytes(), plan, size)
}
/// content with symbolic bytes, whole or in two pieces
pub fn f_bytes() {
    bytes(1)
}
pub fn f_bytes2() {
    bytes(2)
}
fn bytes(most: u32) {
    let (x, y) = [("scilla_version 0 contract C() (*", "*)"), ("", "scilla_version 0 contract C()"), ("scilla_version 0 contract C() field f : A = \"", "\""), ("scilla_version 0 contract C(", ")"),
        ("scilla_version 0 contract C()", ""), ("", "scilla_version 0\r\n\tcontract C(a : )"), ("scilla_version 0\n", "\n contract C(a : )\r\n")][fork(7) as usize];
    let n = most;
    let cut = fork(n + 2) as usize;
    let mut v = x.as_bytes().to_vec();
    for _ in 0..n {
        v.push(byte())
    }
    v.extend_from_slice(y.as_bytes());
    let mut plan = [0u8; 4];
    if cut > 0 {
        plan[1] = 2 + (x.len() + cut - 1) as u8;
    }
    let size = v.len() as i64;
    go(NAME, Box::leak(v.into_boxed_slice()), plan, size)
}
/// three and four symbolic bytes in a comment
pub fn f_bytes3() {
    let n = 3 + fork(2);
    let mut v = b"scilla_version 0 contract C() (*".to_vec();
    for _ in 0..n {
        v.push(byte())
    }
    v.extend_from_slice(b"*)");
    let size = v.len() as i64;
    go(NAME, Box::leak(v.into_boxed_slice()), [0; 4], size)
}
/// files larger than any buffer, in pieces
pub fn f_large() {
    let mut b = B::new();
    b.s("scilla_version 0 contract C(");
    let n = [40u32, 600, 1200][fork(3) as usize];
    for i in 0..n {
        b.s(if i % 3 == 0 { "(* \u{e9} *)\n" } else { "      \t" });
    }
    b.s("a : A) field f : B = c transition t() end");
    let s = b.take();
    let size = sizes(s.len());
    let mut plan = [0u8; 4];
    plan[1] = [0u8, 1, 3, 34, 66, 130, 255][fork(7) as usize];
    plan[2] = [0u8, 1, 2, 3, 255][fork(5) as usize];
    go(NAME, s.as_bytes(), plan, size)
}
/// files beyond the usual limits of a single read
fn huge(n: usize) {
    let mut b = B::new();
    b.s("scilla_version 0 contract C((*");
    b.0.resize(b.0.len() + n, b'x');
    b.s("*) a : A) field f : B = c transition t() end");
    let s = b.take();
    let mut plan = [0u8; 4];
    plan[2] = [0u8, 1, 255][fork(3) as usize];
    go(NAME, s.as_bytes(), plan, s.len() as i64)
}
pub fn f_huge() {
    huge([8160, 65500, 131072][fork(3) as usize])
}
pub fn f_huge2() {
    huge([1 << 20, 1_300_000][fork(2) as usize])
}
/// characters of several bytes across every even, third and fourth offset
pub fn f_edge() {
    let (c, n) = [("\u{e9}", 66000), ("\u{6f22}", 24000), ("\u{1f600}", 18000)][fork(3) as usize];
    let mut b = B::new();
    b.s("scilla_version 0 contract C((*");
    for _ in 0..fork(c.len() as u32) {
        b.s(".");
    }
    for _ in 0..n / c.len() {
        b.s(c);
    }
    b.s("*) a : A) field f : B = c");
    let s = b.take();
    let mut plan = [0u8; 4];
    plan[2] = [0u8, 1, 254][fork(3) as usize];
    go(NAME, s.as_bytes(), plan, s.len() as i64)
}
/// other names
pub fn f_names() {
    let n: &'static [u8] = match fork(8) {
        0 => b"symx",
        1 => long_name().as_bytes(),
        2 => "/symx/\u{e9} b".as_bytes(),
        3 => b"/symx/\xff.scilla",
        4 => b"/symx/a.txt",
        5 => b"/symx/.c",
        6 => b"/symx/a.scilla/",
        _ => b"/symx/a/../b",
    };
    let mut plan = [0u8; 4];
    plan[0] = fork(6) as u8;
    go_to(n, TEXT.as_bytes(), plan, TEXT.len() as i64)
}
/// a name no file can have
pub fn f_nul() {
    *fs() = Fs { data: TEXT.as_bytes(), pos: 0, open: false, opens: 0, plan: [0; 4], step: 0, size: 0, failed: 0, wrong: false, name: b"" };
    let mut s = String::from("a");
    s.push(0 as char);
    s.push(choose(128) as u8 as char);
    let r = Contract::parse(Path::new(&s));
    check(matches!(r, Err(Error::IoError(_))), 1303);
    observe(0);
    reach(1305)
}
