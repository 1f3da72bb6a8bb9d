//! A simulated block device: sparse contents of any size, any block size,
//! independent or shared cursors, and faults decided by the explorer.

use crate::explore::{Ctx, Digest};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::BuildHasherDefault;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
use std::sync::Arc;
use sut::verif::{BlockCount, BlockDevice, BlockNumber, BlockSize};

const PAGE: usize = 512;
type Pages = HashMap<u64, Arc<[u8; PAGE]>, BuildHasherDefault<Digest>>;

/// Sparse bytes; what was never written is zero (or a pattern).
#[derive(Clone, Default)]
pub struct Image {
    pub size: u64,
    pages: Arc<Pages>,
}

impl Image {
    pub fn new(size: u64) -> Self {
        Self {
            size,
            pages: Default::default(),
        }
    }

    pub fn from_bytes(bytes: &[u8]) -> Self {
        let mut image = Self::new(bytes.len() as u64);
        image.write(0, bytes);
        image
    }

    pub fn write(&mut self, offset: u64, bytes: &[u8]) {
        assert!(
            offset + bytes.len() as u64 <= self.size,
            "harness: write at {offset} beyond the end of the image"
        );
        let pages = Arc::make_mut(&mut self.pages);
        let mut done = 0;
        while done < bytes.len() {
            let at = offset + done as u64;
            let in_page = (at % PAGE as u64) as usize;
            let n = (PAGE - in_page).min(bytes.len() - done);
            let page = pages
                .entry(at / PAGE as u64)
                .or_insert_with(|| Arc::new([0; PAGE]));
            Arc::make_mut(page)[in_page..][..n].copy_from_slice(&bytes[done..][..n]);
            done += n;
        }
    }

    pub fn xor(&mut self, offset: u64, mask: u8) {
        let mut byte = [0];
        self.read(offset, &mut byte);
        self.write(offset, &[byte[0] ^ mask]);
    }

    /// Reads within the image.
    pub fn read(&self, offset: u64, buf: &mut [u8]) {
        let mut done = 0;
        while done < buf.len() {
            let at = offset + done as u64;
            let in_page = (at % PAGE as u64) as usize;
            let n = (PAGE - in_page).min(buf.len() - done);
            match self.pages.get(&(at / PAGE as u64)) {
                Some(page) => buf[done..][..n].copy_from_slice(&page[in_page..][..n]),
                None => buf[done..][..n].fill(0),
            }
            done += n;
        }
    }

    pub fn bytes(&self, offset: u64, len: usize) -> Vec<u8> {
        let mut buf = vec![0; len];
        self.read(offset, &mut buf);
        buf
    }

    /// What was written, in pages of 512 bytes.
    pub fn parts(&self) -> impl Iterator<Item = (u64, &[u8])> {
        self.pages
            .iter()
            .map(|(page, bytes)| (page * PAGE as u64, &bytes[..]))
    }

    /// The same contents, cut off or extended with zeros.
    pub fn resized(&self, size: u64) -> Self {
        let mut image = self.clone();
        image.size = size;
        if size < self.size {
            let pages = Arc::make_mut(&mut image.pages);
            pages.retain(|page, _| page * (PAGE as u64) < size);
            let tail = (size % PAGE as u64) as usize;
            if tail != 0 {
                if let Some(page) = pages.get_mut(&(size / PAGE as u64)) {
                    Arc::make_mut(page)[tail..].fill(0);
                }
            }
        }
        image
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
    /// `read` returns one byte.
    OneByte,
    /// `read` returns half of what was asked for.
    Half,
    /// `read` is interrupted by a signal.
    Interrupted,
    /// The operation fails.
    Error,
    /// `read` reports the end of the device.
    Eof,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Access {
    Read { offset: u64, len: usize },
    Seek(u64),
    ReadBlock(u64),
    BlockCount,
    BlockSize,
    Clone,
}

/// What is shared by all handles of one device.
pub struct Shared {
    pub log: RefCell<Vec<Access>>,
    pub log_enabled: Cell<bool>,
    /// Faults of reads that the explorer may choose (each is a deviation).
    read_faults: RefCell<Vec<Fault>>,
    other_faults: Cell<bool>,
    ctx: RefCell<Option<Ctx>>,
    pub faults_injected: RefCell<Vec<(Access, Fault)>>,
    /// Byte ranges that cannot be read.
    bad: RefCell<Vec<(u64, u64)>>,
    cursor: Cell<u64>,
    paused: Cell<bool>,
    /// Reads until a storm of interruptions, and its length.
    storm: Cell<(u64, u64)>,
    /// The most that one `read` returns.
    most: Cell<usize>,
}

impl Shared {
    /// Interrupts a read very often, and returns few bytes at a time.
    pub fn disturb(&self, nth: u64, times: u64, most: usize) {
        self.storm.set((nth, times));
        self.most.set(most);
    }

    fn interrupted(&self) -> io::Result<()> {
        match self.storm.get() {
            (_, 0) => Ok(()),
            (0, times) => {
                self.storm.set((0, times - 1));
                Err(io::ErrorKind::Interrupted.into())
            }
            (nth, times) => {
                self.storm.set((nth - 1, times));
                Ok(())
            }
        }
    }

    /// Suspends or resumes the injection of faults.
    pub fn pause(&self, paused: bool) {
        self.paused.set(paused)
    }

    /// Makes these byte ranges, and no others, unreadable.
    pub fn set_bad(&self, ranges: &[(u64, u64)]) {
        *self.bad.borrow_mut() = ranges.to_vec();
    }
}

pub struct SimDev {
    pub image: Image,
    pub block_size: u32,
    cursor: u64,
    share_cursor: bool,
    pub shared: Rc<Shared>,
}

/// Errors that have no number.
const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::TimedOut,
    io::ErrorKind::NotFound,
    io::ErrorKind::WriteZero,
];
const LAST_ERRNO: i32 = 133;

thread_local! {
    static FAILURE: Cell<i32> = const { Cell::new(libc::EIO) };
}

/// While this exists, what fails in this thread fails with another error than
/// EIO.
pub struct Failure;

impl Failure {
    /// Any error that Linux has but EINTR (which says that nothing failed),
    /// or some that only Rust has.
    pub fn choose(ctx: &Ctx) -> Self {
        let n = ctx.choose(LAST_ERRNO as usize - 1 + KINDS.len()) as i32 + 1;
        FAILURE.with(|f| f.set(if n >= libc::EINTR { n + 1 } else { n }));
        ctx.note(|| format!("what fails says: {}", failure()));
        Self
    }

    /// Any error that Linux has but EINTR.
    pub fn choose_errno(ctx: &Ctx) -> Self {
        let n = ctx.choose(LAST_ERRNO as usize - 1) as i32 + 1;
        FAILURE.with(|f| f.set(if n >= libc::EINTR { n + 1 } else { n }));
        ctx.note(|| format!("what fails says: {}", failure()));
        Self
    }
}

impl Drop for Failure {
    fn drop(&mut self) {
        FAILURE.with(|f| f.set(libc::EIO));
    }
}

/// The number of the error with which system calls fail.
pub fn failure_errno() -> i32 {
    FAILURE.with(|f| f.get())
}

fn failure() -> io::Error {
    match failure_errno() {
        n @ ..=LAST_ERRNO => io::Error::from_raw_os_error(n),
        n => KINDS[(n - LAST_ERRNO - 1) as usize].into(),
    }
}

impl SimDev {
    pub fn new(image: Image, block_size: u32) -> Self {
        Self {
            image,
            block_size,
            cursor: 0,
            share_cursor: false,
            shared: Rc::new(Shared {
                log: Default::default(),
                log_enabled: Cell::new(false),
                read_faults: Default::default(),
                other_faults: Cell::new(false),
                ctx: Default::default(),
                faults_injected: Default::default(),
                bad: Default::default(),
                cursor: Cell::new(0),
                paused: Cell::new(false),
                storm: Cell::new((0, 0)),
                most: Cell::new(usize::MAX),
            }),
        }
    }

    /// Clones share one cursor, as duplicated file descriptors do.
    pub fn sharing_cursor(mut self) -> Self {
        self.share_cursor = true;
        self
    }

    pub fn with_log(self) -> Self {
        self.shared.log_enabled.set(true);
        self
    }

    /// From now on the explorer may let reads fail in the given ways, and (if
    /// `others`) any other operation with an I/O error.
    pub fn inject(&self, ctx: &Ctx, reads: &[Fault], others: bool) {
        *self.shared.ctx.borrow_mut() = Some(ctx.clone());
        *self.shared.read_faults.borrow_mut() = reads.to_vec();
        self.shared.other_faults.set(others);
    }

    pub fn bad_range(self, from: u64, to: u64) -> Self {
        self.shared.bad.borrow_mut().push((from, to));
        self
    }

    fn log(&self, access: Access) {
        if self.shared.log_enabled.get() {
            self.shared.log.borrow_mut().push(access);
        }
    }

    fn read_fault(&self, access: Access) -> Option<Fault> {
        if self.shared.paused.get() {
            return None;
        }
        let ctx = self.shared.ctx.borrow().clone()?;
        let faults = self.shared.read_faults.borrow();
        match ctx.deviate(faults.len() + 1) {
            0 => None,
            n => {
                let fault = faults[n - 1];
                self.shared.faults_injected.borrow_mut().push((access, fault));
                Some(fault)
            }
        }
    }

    fn other_fault(&self, access: Access) -> io::Result<()> {
        if self.shared.other_faults.get() && !self.shared.paused.get() {
            let ctx = self.shared.ctx.borrow().clone();
            if let Some(ctx) = ctx {
                if ctx.deviate(2) == 1 {
                    self.shared
                        .faults_injected
                        .borrow_mut()
                        .push((access, Fault::Error));
                    return Err(failure());
                }
            }
        }
        Ok(())
    }

    /// The first byte at or after `from` that cannot be read, if before `to`.
    fn first_bad(&self, from: u64, to: u64) -> Option<u64> {
        self.shared
            .bad
            .borrow()
            .iter()
            .filter(|(a, b)| *a < to && from < *b)
            .map(|(a, _)| (*a).max(from))
            .min()
    }

    fn position(&self) -> u64 {
        if self.share_cursor {
            self.shared.cursor.get()
        } else {
            self.cursor
        }
    }

    fn set_position(&mut self, position: u64) {
        if self.share_cursor {
            self.shared.cursor.set(position)
        } else {
            self.cursor = position
        }
    }
}

impl BlockDevice for SimDev {
    fn block_size(&self) -> io::Result<BlockSize> {
        self.log(Access::BlockSize);
        self.other_fault(Access::BlockSize)?;
        Ok(BlockSize(self.block_size))
    }

    fn block_count(&self) -> io::Result<BlockCount> {
        self.log(Access::BlockCount);
        self.other_fault(Access::BlockCount)?;
        Ok(BlockCount(self.image.size / u64::from(self.block_size)))
    }

    fn read_block(&mut self, block_number: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        let access = Access::ReadBlock(block_number.0);
        self.log(access);
        let block_size = self.block_size as usize;
        if buf.len() < block_size {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.shared.interrupted()?;
        match self.read_fault(access) {
            None => {}
            Some(Fault::Interrupted) => return Err(io::ErrorKind::Interrupted.into()),
            Some(Fault::Eof) => return Err(io::ErrorKind::UnexpectedEof.into()),
            Some(_) => return Err(failure()),
        }
        let from = block_number
            .0
            .checked_mul(u64::from(self.block_size))
            .ok_or(io::ErrorKind::InvalidInput)?;
        let to = from
            .checked_add(u64::from(self.block_size))
            .ok_or(io::ErrorKind::InvalidInput)?;
        if to > self.image.size {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        if self.first_bad(from, to).is_some() {
            return Err(failure());
        }
        self.image.read(from, &mut buf[..block_size]);
        Ok(block_size)
    }

    fn try_clone(&self) -> io::Result<Self> {
        self.log(Access::Clone);
        self.other_fault(Access::Clone)?;
        Ok(Self {
            image: self.image.clone(),
            block_size: self.block_size,
            cursor: self.cursor,
            share_cursor: self.share_cursor,
            shared: self.shared.clone(),
        })
    }
}

impl Read for SimDev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let position = self.position();
        let access = Access::Read {
            offset: position,
            len: buf.len(),
        };
        self.log(access);
        self.shared.interrupted()?;
        let mut n = (buf.len() as u64).min(self.image.size.saturating_sub(position)) as usize;
        n = n.min(self.shared.most.get());
        match self.read_fault(access) {
            None => {}
            Some(Fault::OneByte) => n = n.min(1),
            Some(Fault::Half) => n = n.min(buf.len().div_ceil(2)),
            Some(Fault::Interrupted) => return Err(io::ErrorKind::Interrupted.into()),
            Some(Fault::Error) => return Err(failure()),
            Some(Fault::Eof) => n = 0,
        }
        if let Some(bad) = self.first_bad(position, position + n as u64) {
            if bad == position {
                return Err(failure());
            }
            n = (bad - position) as usize;
        }
        self.image.read(position, &mut buf[..n]);
        self.set_position(position + n as u64);
        Ok(n)
    }
}

impl Seek for SimDev {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let target = match pos {
            SeekFrom::Start(n) => i128::from(n),
            SeekFrom::End(n) => i128::from(self.image.size) + i128::from(n),
            SeekFrom::Current(n) => i128::from(self.position()) + i128::from(n),
        };
        // As lseek(2): offsets are signed 64-bit numbers.
        if target < 0 || target > i128::from(i64::MAX) {
            return Err(io::Error::from_raw_os_error(libc::EINVAL));
        }
        let access = Access::Seek(target as u64);
        self.log(access);
        self.other_fault(access)?;
        self.set_position(target as u64);
        Ok(target as u64)
    }
}
