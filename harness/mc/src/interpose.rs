//! Stand-ins for the system calls with which files are read, so that the
//! explorer decides about short reads, signals and errors of real files, and
//! so that plain files can play block devices. Per thread; without a script
//! every call goes straight to the kernel.

use crate::explore::Ctx;
use crate::simdev::{failure_errno, Fault};
use libc::{c_int, c_ulong, c_void, off64_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};

/// What a file that plays a block device says about itself.
#[derive(Clone, Copy)]
pub struct Native {
    pub size: u64,
    pub physical_block: u32,
    pub logical_block: u32,
}

#[derive(Default)]
struct Script {
    natives: Vec<(c_int, Native)>,
    ctx: Option<Ctx>,
    faults: Vec<Fault>,
    others: bool,
    paused: bool,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::default();
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static INJECTED: RefCell<Vec<(&'static str, Fault)>> = const { RefCell::new(Vec::new()) };
}

/// While this exists, calls of this thread are subject to the script.
pub struct Session;

impl Session {
    pub fn new() -> Self {
        SCRIPT.with(|s| *s.borrow_mut() = Script::default());
        INJECTED.with(|i| i.borrow_mut().clear());
        ACTIVE.with(|a| a.set(true));
        Session
    }

    /// The file descriptor (and its duplicates) plays a block device.
    pub fn native(&self, fd: c_int, native: Native) {
        SCRIPT.with(|s| s.borrow_mut().natives.push((fd, native)));
    }

    pub fn inject(&self, ctx: &Ctx, faults: &[Fault], others: bool) {
        SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            s.ctx = Some(ctx.clone());
            s.faults = faults.to_vec();
            s.others = others;
        });
    }

    /// Suspends or resumes the injection of faults.
    pub fn pause(&self, paused: bool) {
        SCRIPT.with(|s| s.borrow_mut().paused = paused);
    }

    pub fn injected(&self) -> Vec<(&'static str, Fault)> {
        INJECTED.with(|i| i.borrow().clone())
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        ACTIVE.with(|a| a.set(false));
        SCRIPT.with(|s| *s.borrow_mut() = Script::default());
    }
}

fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

fn set_errno(e: c_int) -> ssize_t {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// What to do with a read of `n` bytes: how many to really read, or an error.
fn decide(what: &'static str, n: size_t) -> Result<size_t, ssize_t> {
    let (ctx, faults) = SCRIPT.with(|s| {
        let s = s.borrow();
        (s.ctx.clone().filter(|_| !s.paused), s.faults.clone())
    });
    let Some(ctx) = ctx else { return Ok(n) };
    let fault = match ctx.deviate(faults.len() + 1) {
        0 => return Ok(n),
        c => faults[c - 1],
    };
    INJECTED.with(|i| i.borrow_mut().push((what, fault)));
    match fault {
        Fault::OneByte => Ok(n.min(1)),
        Fault::Half => Ok(n.div_ceil(2)),
        Fault::Interrupted => Err(set_errno(libc::EINTR)),
        Fault::Error => Err(set_errno(failure_errno())),
        Fault::Eof => Err(0),
    }
}

fn other(what: &'static str) -> bool {
    let ctx = SCRIPT.with(|s| {
        let s = s.borrow();
        if s.others && !s.paused {
            s.ctx.clone()
        } else {
            None
        }
    });
    match ctx {
        Some(ctx) if ctx.deviate(2) == 1 => {
            INJECTED.with(|i| i.borrow_mut().push((what, Fault::Error)));
            true
        }
        _ => false,
    }
}

#[no_mangle]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let n = if active() {
        match decide("read", n) {
            Ok(n) => n,
            Err(r) => return r,
        }
    } else {
        n
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

#[no_mangle]
unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, at: off64_t) -> ssize_t {
    let n = if active() {
        match decide("pread", n) {
            Ok(n) => n,
            Err(r) => return r,
        }
    } else {
        n
    };
    libc::syscall(libc::SYS_pread64, fd, buf, n, at) as ssize_t
}

#[no_mangle]
unsafe extern "C" fn lseek64(fd: c_int, at: off64_t, whence: c_int) -> off64_t {
    if active() && other("lseek") {
        return set_errno(failure_errno()) as off64_t;
    }
    libc::syscall(libc::SYS_lseek, fd, at, whence)
}

#[no_mangle]
unsafe extern "C" fn ioctl(fd: c_int, request: c_ulong, arg: *mut c_void) -> c_int {
    if active() {
        if other("ioctl") {
            return set_errno(failure_errno()) as c_int;
        }
        // Duplicates are recognised by their inode.
        let native = SCRIPT.with(|s| {
            s.borrow()
                .natives
                .iter()
                .find(|(other, _)| *other == fd || same_file(*other, fd))
                .map(|(_, n)| *n)
        });
        if let Some(native) = native {
            // BLKGETSIZE64, BLKPBSZGET, BLKSSZGET, BLKGETSIZE.
            match request & 0xffff_ffff {
                0x8008_1272 => *arg.cast::<u64>() = native.size,
                0x127b => *arg.cast::<u32>() = native.physical_block,
                0x1268 => *arg.cast::<u32>() = native.logical_block,
                0x1260 => *arg.cast::<u64>() = native.size / 512,
                _ => return set_errno(libc::ENOTTY) as c_int,
            }
            return 0;
        }
    }
    libc::syscall(libc::SYS_ioctl, fd, request, arg) as c_int
}

unsafe fn same_file(a: c_int, b: c_int) -> bool {
    let mut x: libc::stat64 = std::mem::zeroed();
    let mut y: libc::stat64 = std::mem::zeroed();
    libc::fstat64(a, &mut x) == 0
        && libc::fstat64(b, &mut y) == 0
        && (x.st_dev, x.st_ino) == (y.st_dev, y.st_ino)
}

/// An anonymous file with the given contents, which takes no room where
/// nothing is written.
pub fn memory_file(size: u64, parts: &[(u64, Vec<u8>)]) -> std::fs::File {
    use std::os::fd::FromRawFd;
    use std::os::unix::fs::FileExt;
    let fd = unsafe { libc::memfd_create(c"mc".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "harness: memfd_create failed");
    let file = unsafe { std::fs::File::from_raw_fd(fd) };
    file.set_len(size).expect("harness: cannot size a file");
    for (at, bytes) in parts {
        file.write_all_at(bytes, *at).expect("harness: cannot write a file");
    }
    file
}
