//! C17, C18: open files side by side, and I/O faults under a filesystem.

use crate::explore::{Ctx, Explorer};
use crate::ext4_dir::{entries_of, next_entry, open_dir, Entry, Next};
use crate::ext4_fs::{fill, open_file};
use crate::ext4ref::{mode, pattern_block, Csum, Fs, Geo, Record, Run, Tree};
use crate::interpose::{memory_file, Native, Session};
use crate::md_array;
use crate::mdref::{ArraySpec, Flavour};
use crate::simdev::{failure_errno, Access, Failure, Fault, Image, SimDev};
use crate::{Check, Level};
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use sut::verif::ext4::{Ext4Directory, Ext4File, Ext4Fs, Ext4RegularFile, Inode, InodeNumber};
use sut::verif::md::{MdArray, MdDevice};
use sut::verif::{
    BlockDevice, BlockDeviceReader, BlockNumber, BlockSize, FileBlockDevice, InMemoryBlockDevice, NativeBlockDevice,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            level: Level::Model,
            rule: "one execution is one interleaving of operations of several open files, directories, \
                   clones of the filesystem and of the device, on the real code; each result is \
                   compared with what a model (a position per handle) expects; non-trivial if two \
                   different handles were used",
            assumptions: &["the program's types are not shared between threads (they are not Sync)"],
            note: "All interleavings up to the stated depth over every kind of device, including \
                   handles that share one file position; then everything is read to its end.",
            run: run_c17,
        },
        Check {
            id: "C18",
            level: Level::Faults,
            rule: "one execution opens a filesystem, lists a directory and reads files while up to \
                   the stated number of device operations fail in the chosen ways; results up to the \
                   first error must be those without faults; non-trivial if a fault took place",
            assumptions: &["a failing device delivers no wrong data"],
            note: "Every place for one fault (and every two, deeper every three) among all device \
                   operations and system calls of the enumerated scenarios, of every kind.",
            run: run_c18,
        },
    ]
}

#[derive(Clone, PartialEq, Eq)]
pub enum Item {
    Data(Vec<u8>),
    Entry(Entry),
}

/// A filesystem with a directory (inode 2) and two files (12 and 13).
pub struct World {
    pub image: Image,
    pub bs: usize,
    /// What the inode of the directory says, as it is read alone.
    pub root: String,
    pub contents: HashMap<u32, Vec<Item>>,
}

pub const WORLD_BLOCKS: u64 = 64;

/// What an inode says at its start, at its end and in between.
fn facts(inode: &Inode) -> String {
    format!(
        "{} {} {} {} {} {} {}",
        inode.file_size_bytes(),
        inode.access_time(),
        inode.change_time(),
        inode.creation_time(),
        inode.generation(),
        inode.version(),
        inode.project_id(),
    )
}

fn root_inode<D: BlockDevice + Read + Seek>(fs: &mut Ext4Fs<D>, world: &World) -> Result<(), Option<String>> {
    let got = fs.read_root_inode().map_err(|_| None)?;
    if facts(&got) == world.root {
        Ok(())
    } else {
        Err(Some(format!("the root inode says {}, not {}", facts(&got), world.root)))
    }
}

/// `levels` is the depth of the extent tree of the larger file.
pub fn world(log_bs: u32, csum: Csum, levels: usize) -> World {
    let mut fs = Fs::new(Geo {
        blocks: WORLD_BLOCKS,
        inodes_per_group: 16,
        ..Geo::small(log_bs, csum)
    });
    let bs = fs.bs();
    let mut contents = HashMap::new();
    let blocks: Vec<Vec<Record>> = (0..2u32)
        .map(|b| {
            vec![
                Record::new(12, format!("one-{b}").as_bytes(), 1),
                Record::new(0, b"gone", 1),
                Record::new(13, format!("two-{b}").as_bytes(), 1),
            ]
        })
        .collect();
    let mut root = fs.add_dir(2, &blocks, true);
    // Something in every field that does not fit in a small inode.
    for (i, byte) in root.0[0x80..0xa0].iter_mut().enumerate() {
        match i {
            0 => *byte = 32,
            1..=3 => {}
            _ => *byte = 0x11 + i as u8,
        }
    }
    fs.write_inode(2, &root);
    contents.insert(2, entries_of(&blocks).into_iter().map(Item::Entry).collect());
    let run = |logical: u32, len: u16, start: u64, unwritten: bool| Run {
        logical,
        len,
        start,
        unwritten,
    };
    let mut file = |ino: u32, short: usize, lens: &[(u16, bool)], levels: usize| {
        let mut logical = 0;
        let mut runs = Vec::new();
        let mut items = Vec::new();
        for (len, unwritten) in lens {
            let start = fs.alloc(u64::from(*len) + 1);
            runs.push(run(logical, *len, start, *unwritten));
            for i in 0..u64::from(*len) {
                items.push(if *unwritten { vec![0; bs] } else { pattern_block(start + i, bs) });
            }
            logical += u32::from(*len);
        }
        let size = items.len() * bs - short;
        items.last_mut().unwrap().truncate(bs - short);
        let mut nodes: Vec<(u32, Tree)> = if levels == 0 {
            vec![(0, Tree::Leaf(runs))]
        } else {
            runs.iter().map(|run| (run.logical, Tree::Leaf(vec![*run]))).collect()
        };
        for level in 0..levels {
            // Two nodes in each, and all in the root.
            let size = if level + 1 == levels { nodes.len() } else { 2 };
            let mut above = Vec::new();
            while !nodes.is_empty() {
                let rest = nodes.split_off(size.min(nodes.len()));
                let first = nodes[0].0;
                let entries = nodes.into_iter().map(|(logical, node)| (logical, fs.alloc(1), node));
                above.push((first, Tree::Index(entries.collect())));
                nodes = rest;
            }
            nodes = above;
        }
        let tree = nodes.remove(0).1;
        fill(&mut fs, &tree);
        fs.add_file(ino, mode::REG | 0o644, size as u64, &tree);
        items.into_iter().map(Item::Data).collect::<Vec<_>>()
    };
    let items = file(12, 100, &[(2, false), (1, true), (1, false)], levels);
    contents.insert(12, items);
    let items = file(13, 0, &[(1, false), (2, false)], 0);
    contents.insert(13, items);
    let root = Ext4Fs::open(SimDev::new(fs.image.clone(), 512)).and_then(|mut fs| fs.read_root_inode());
    let root = facts(&root.expect("harness: a filesystem without faults"));
    World {
        image: fs.image,
        bs,
        root,
        contents,
    }
}

pub enum Handle<D: BlockDevice + Read + Seek> {
    Dir(Ext4Directory<D>),
    File(Ext4RegularFile<D>),
}

pub enum Got {
    Item(Item),
    End,
    Error(String),
}

impl<D: BlockDevice + Read + Seek> Handle<D> {
    pub fn open(fs: &mut Ext4Fs<D>, ino: u32) -> Result<Self, String> {
        if ino == 2 {
            open_dir(fs, ino).map(Handle::Dir)
        } else {
            open_file(fs, ino).map(Handle::File)
        }
    }

    pub fn next(&mut self, bs: usize) -> Got {
        match self {
            Handle::Dir(dir) => match next_entry(dir) {
                Next::Entry(entry) => Got::Item(Item::Entry(entry)),
                Next::End => Got::End,
                Next::Error(e) => Got::Error(e),
            },
            Handle::File(file) => {
                let mut buf = vec![0xa5; bs];
                match file.read_next_block(&mut buf) {
                    Ok(0) => Got::End,
                    Ok(n) => {
                        buf.truncate(n);
                        Got::Item(Item::Data(buf))
                    }
                    Err(e) => Got::Error(e.to_string()),
                }
            }
        }
    }
}

pub fn show(item: &Item) -> String {
    match item {
        Item::Data(bytes) => format!("{} bytes ({:02x?}...)", bytes.len(), &bytes[..bytes.len().min(4)]),
        Item::Entry(entry) => format!("{entry:?}"),
    }
}

struct Open<D: BlockDevice + Read + Seek> {
    ino: u32,
    at: usize,
    handle: Handle<D>,
}

impl<D: BlockDevice + Read + Seek> Open<D> {
    fn advance(&mut self, world: &World) -> Result<(), String> {
        let want = world.contents[&self.ino].get(self.at);
        match (self.handle.next(world.bs), want) {
            (Got::Item(got), Some(want)) if got == *want => {
                self.at += 1;
                Ok(())
            }
            (Got::End, None) => Ok(()),
            (Got::Item(got), Some(want)) => Err(format!(
                "item {} of inode {} is {}, should be {}",
                self.at,
                self.ino,
                show(&got),
                show(want)
            )),
            (Got::Item(got), None) => Err(format!("inode {} goes on with {}", self.ino, show(&got))),
            (Got::End, Some(_)) => Err(format!("inode {} ends after {} items", self.ino, self.at)),
            (Got::Error(e), _) => Err(format!("item {} of inode {} is an error: {e}", self.at, self.ino)),
        }
    }
}

/// Explores the operations of several handles on clones of `raw`. If it is
/// `independent`, clones of it have positions of their own.
fn interleave<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    world: &World,
    raw: D,
    independent: bool,
    depth: usize,
) -> Result<(), String> {
    interleave_rounds(ctx, world, raw, independent, (depth, 1))
}

/// The same, with the sequence of operations again and again.
fn interleave_rounds<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    world: &World,
    mut raw: D,
    independent: bool,
    (depth, rounds): (usize, usize),
) -> Result<(), String> {
    let io = |what: &str, e: std::io::Error| format!("{what}: {e}");
    let size = world.image.size;
    let block_size = u32::from(raw.block_size().map_err(|e| io("block size", e))?) as usize;
    let clone = raw.try_clone().map_err(|e| io("clone", e))?;
    let mut systems = vec![Ext4Fs::open(clone).map_err(|e| io("open", e))?];
    let mut handles = Vec::new();
    for ino in [12, 2, 12] {
        handles.push(Open {
            ino,
            at: 0,
            handle: Handle::open(&mut systems[0], ino)?,
        });
    }
    // Where the raw device is, if it has a position of its own.
    let mut position = raw.seek(SeekFrom::Start(0)).map_err(|e| io("seek", e))?;
    let mut used = 0u32;
    let mut text = String::new();
    for step in 0..depth * rounds {
        if rounds > 1 {
            ctx.periodic(step % depth);
        }
        let n = handles.len();
        let mut op = ctx.choose(n + if independent { 7 } else { 6 });
        ctx.step();
        if op < n {
            used |= 1 << op;
            text += &format!(" next({op})");
            handles[op].advance(world).map_err(|e| format!("{e} (after{text})"))?;
        } else {
            op -= n;
            used |= 1 << (16 + op);
            match op {
                0 if n < 5 => {
                    // The kind opened alternates.
                    let ino = [13, 2][n % 2];
                    text += &format!(" open({ino})");
                    let last = systems.len() - 1;
                    let handle = Handle::open(&mut systems[last], ino).map_err(|e| format!("{e} (after{text})"))?;
                    handles.push(Open { ino, at: 0, handle });
                }
                0 => {
                    // Too many: the first is closed.
                    text += " close(0)";
                    handles.remove(0);
                }
                1 if systems.len() < 3 => {
                    text += " clone-fs";
                    let last = systems.last().unwrap();
                    systems.push(last.try_clone().map_err(|e| io("clone", e))?);
                }
                1 => {
                    text += " drop-fs";
                    systems.remove(0);
                }
                2 => {
                    text += " root";
                    root_inode(&mut systems[0], world)
                        .map_err(|e| format!("{} (after{text})", e.unwrap_or("no root inode".into())))?;
                }
                3 => {
                    position = (position + 12_345) % size;
                    text += &format!(" seek({position})");
                    raw.seek(SeekFrom::Start(position)).map_err(|e| io("seek", e))?;
                }
                4 => {
                    let block = size / block_size as u64 / 2 + 1;
                    text += &format!(" read-block({block})");
                    let mut buf = vec![0; block_size];
                    let count = raw
                        .read_block(BlockNumber(block), &mut buf)
                        .map_err(|e| io("read_block", e))?;
                    if count != block_size || buf != world.image.bytes(block * block_size as u64, block_size) {
                        return Err(format!("block {block} of the device is wrong (after{text})"));
                    }
                    // Where that leaves the position is not said.
                    position = raw.seek(SeekFrom::Start(77)).map_err(|e| io("seek", e))?;
                }
                5 => {
                    position = 3000;
                    text += " seek-and-read(3000)";
                    raw.seek(SeekFrom::Start(position)).map_err(|e| io("seek", e))?;
                    let mut buf = [0; 1500];
                    raw.read_exact(&mut buf).map_err(|e| io("read", e))?;
                    if world.image.bytes(position, 1500) != buf {
                        return Err(format!("the device gives wrong data (after{text})"));
                    }
                    position += 1500;
                }
                _ => {
                    text += &format!(" read({position})");
                    let n = 700.min(size - position) as usize;
                    let mut buf = vec![0; n];
                    raw.read_exact(&mut buf).map_err(|e| io("read", e))?;
                    if world.image.bytes(position, n) != buf {
                        return Err(format!("the device at {position} gives wrong data (after{text})"));
                    }
                    position += n as u64;
                }
            }
        }
        let mut state: Vec<(u32, usize)> = handles.iter().map(|h| (h.ino, h.at)).collect();
        state.push((systems.len() as u32, position as usize));
        ctx.state(&state);
    }
    ctx.aperiodic();
    if used.count_ones() > 1 {
        ctx.nontrivial();
    }
    ctx.note(|| text.clone());
    // Everything to the end, by turns.
    for _ in 0..6 {
        for handle in &mut handles {
            handle.advance(world).map_err(|e| format!("{e} (after{text}, and on by turns)"))?;
            ctx.step();
        }
    }
    for handle in &handles {
        if handle.at != world.contents[&handle.ino].len() {
            return Err("harness: not read to the end".to_string());
        }
    }
    Ok(())
}

/// An array with the contents of an image.
pub fn array_spec(level: u32, layout: u32, n: u32, chunk: u32, image: &Image) -> ArraySpec {
    let data = u64::from(n - if level == 5 { 1 } else { 2 });
    let stripes = (image.size / 512).div_ceil(data * u64::from(chunk));
    md_array::spec(
        Flavour::V1_2,
        level,
        layout,
        n,
        chunk,
        stripes * u64::from(chunk),
        24,
        1,
    )
}

pub fn array_members(spec: &ArraySpec, image: &Image) -> Vec<Image> {
    spec.build_with(
        |_| true,
        |sector| {
            let mut out = [0; 512];
            if (sector + 1) * 512 <= image.size {
                image.read(sector * 512, &mut out);
            }
            out
        },
    )
}

/// Opens `count` handles of the given files by turns, from one filesystem or
/// from clones of clones of it, and advances all of them in rounds.
fn many_handles<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    world: &World,
    raw: D,
    count: usize,
    files: &[u32],
    (chain, order, closing): (bool, usize, usize),
) -> Result<(), String> {
    let mut fs = Ext4Fs::open(raw).map_err(|e| e.to_string())?;
    let mut handles: Vec<Open<D>> = Vec::new();
    for i in 0..count {
        if chain {
            fs = fs.try_clone().map_err(|e| e.to_string())?;
        }
        let ino = files[i % files.len()];
        let handle = Handle::open(&mut fs, ino)?;
        handles.push(Open { ino, at: 0, handle });
        // They are not all at the same place.
        for _ in 0..i % 3 {
            handles[i].advance(world)?;
            ctx.step();
        }
    }
    let mut fs = Some(fs);
    for round in 0..5 {
        let n = handles.len();
        for i in 0..n {
            let i = match order {
                0 => i,
                1 => n - 1 - i,
                2 => (i * 7 + round) % n,
                _ => i / 2,
            };
            handles[i].advance(world).map_err(|e| format!("handle {i} in round {round}: {e}"))?;
            ctx.step();
        }
        match (closing, round) {
            (1, 1) => drop(fs.take()),
            (2, 1) => {
                let mut i = 0;
                handles.retain(|_| {
                    i += 1;
                    i % 2 == 0
                });
            }
            (3, 1) => handles.truncate(n / 2),
            (3, 2) => {
                let fs = fs.as_mut().unwrap();
                for i in 0..n {
                    let ino = files[i % files.len()];
                    let handle = Handle::open(fs, ino)?;
                    handles.insert(i * 2, Open { ino, at: 0, handle });
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn file_of(image: &Image) -> std::fs::File {
    memory_file(image.size, &[(0, image.bytes(0, image.size as usize))])
}

fn file_device(image: &Image) -> FileBlockDevice {
    FileBlockDevice::from_file(file_of(image), BlockSize(512))
}

/// The blocks read by opening and reading everything.
fn touched_blocks(world: &World) -> Vec<u64> {
    let dev = SimDev::new(world.image.clone(), 512).with_log();
    let log = dev.shared.clone();
    let mut blocks = Vec::new();
    if let Ok(mut fs) = Ext4Fs::open(dev) {
        log.log.borrow_mut().clear();
        for ino in [2, 12, 13] {
            let Ok(mut handle) = Handle::open(&mut fs, ino) else { continue };
            while let Got::Item(_) = handle.next(world.bs) {}
        }
    }
    for access in log.log.borrow().iter() {
        let at = match access {
            Access::Read { offset, len } if *len > 0 => *offset,
            Access::ReadBlock(block) => block * 512,
            _ => continue,
        };
        blocks.push(at / world.bs as u64);
    }
    blocks.sort_unstable();
    blocks.dedup();
    blocks
}

/// Explores the operations of several handles while something fails at times.
fn interleave_failures<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    world: &World,
    raw: D,
    toggle: &dyn Fn(bool),
    depth: usize,
) -> Result<(), String> {
    struct Tried<D: BlockDevice + Read + Seek> {
        open: Open<D>,
        /// Whether it has met an error.
        lost: bool,
    }
    let mut fs = Ext4Fs::open(raw).map_err(|e| format!("open: {e}"))?;
    let mut other = fs.try_clone().map_err(|e| format!("clone: {e}"))?;
    let mut handles: Vec<Tried<D>> = Vec::new();
    for ino in [12, 2, 12] {
        let open = Open {
            ino,
            at: 0,
            handle: Handle::open(&mut fs, ino)?,
        };
        handles.push(Tried { open, lost: false });
    }
    let mut bad = false;
    let mut text = String::new();
    let mut met = false;
    for _ in 0..depth {
        let op = ctx.choose(6);
        ctx.step();
        match op {
            0 => {
                bad = !bad;
                toggle(bad);
                text += if bad { " fails" } else { " works" };
            }
            1 | 2 => {
                let ino = [12, [2, 13][handles.len() % 2]][op - 1];
                text += &format!(" open({ino})");
                let system = if handles.len() % 2 == 0 { &mut fs } else { &mut other };
                match Handle::open(system, ino) {
                    Ok(handle) => handles.insert(
                        0,
                        Tried {
                            open: Open { ino, at: 0, handle },
                            lost: false,
                        },
                    ),
                    Err(e) if !bad => return Err(format!("opening fails: {e} (after{text})")),
                    Err(_) => met = true,
                }
            }
            n => {
                let tried = &mut handles[n - 3];
                text += &format!(" next({})", n - 3);
                let items = &world.contents[&tried.open.ino];
                let (ino, at) = (tried.open.ino, tried.open.at);
                let got = tried.open.handle.next(world.bs);
                if tried.lost {
                    match got {
                        // Nothing twice, nothing else.
                        Got::Item(item) => match items[at..].iter().position(|i| *i == item) {
                            Some(n) => tried.open.at += n + 1,
                            None => {
                                let item = show(&item);
                                return Err(format!("after an error inode {ino} gives {item} (after{text})"));
                            }
                        },
                        Got::End | Got::Error(_) => {}
                    }
                } else {
                    match got {
                        Got::Item(item) if items.get(at) == Some(&item) => tried.open.at += 1,
                        Got::Item(item) => {
                            return Err(format!("item {at} of inode {ino} is {} (after{text})", show(&item)));
                        }
                        Got::End if at == items.len() => {}
                        Got::End => return Err(format!("inode {ino} ends after {at} items (after{text})")),
                        Got::Error(_) if bad => {
                            tried.lost = true;
                            met = true;
                        }
                        Got::Error(e) => {
                            return Err(format!("item {at} of inode {ino} is an error: {e} (after{text})"));
                        }
                    }
                }
            }
        }
        let mut state: Vec<(u32, usize, bool)> = handles.iter().map(|h| (h.open.ino, h.open.at, h.lost)).collect();
        state.push((0, 0, bad));
        ctx.state(&state);
    }
    if met {
        ctx.nontrivial();
    }
    ctx.note(|| text.clone());
    // With the device well again, everything that was not lost goes on, and
    // everything can be opened again.
    toggle(false);
    handles.retain(|h| !h.lost);
    let mut handles: Vec<Open<D>> = handles.into_iter().map(|h| h.open).collect();
    for ino in [12, 2] {
        let handle = Handle::open(&mut fs, ino).map_err(|e| format!("with the device well again: {e} (after{text})"))?;
        handles.push(Open { ino, at: 0, handle });
    }
    for _ in 0..6 {
        for handle in &mut handles {
            handle
                .advance(world)
                .map_err(|e| format!("{e} (after{text}, well again and by turns)"))?;
            ctx.step();
        }
    }
    Ok(())
}

fn run_c17(e: &mut Explorer) {
    let thorough = e.thorough;
    let worlds: Vec<World> = [(Csum::None, 2), (Csum::Uuid, 1)]
        .iter()
        .map(|(csum, levels)| world(0, *csum, *levels))
        .collect();
    let worlds = &worlds;

    let depth = if thorough { 6 } else { 5 };
    e.family("devices", &|ctx: &Ctx| {
        let which = ctx.choose(2);
        let world = &worlds[which];
        let kind = ctx.choose(4);
        ctx.obs(&("devices", which, kind));
        let result = match kind {
            0 => interleave(ctx, world, SimDev::new(world.image.clone(), 512), true, depth),
            1 => interleave(ctx, world, SimDev::new(world.image.clone(), 512).sharing_cursor(), false, depth),
            2 => interleave(
                ctx,
                world,
                BlockDeviceReader::new(SimDev::new(world.image.clone(), 512).sharing_cursor()),
                true,
                depth,
            ),
            _ => {
                let bytes = world.image.bytes(0, world.image.size as usize);
                interleave(ctx, world, InMemoryBlockDevice::new(bytes, BlockSize(1024)), true, depth - 1)
            }
        };
        ctx.obs(&ctx.path());
        result
    });

    e.family("periodic", &|ctx: &Ctx| {
        // Short sequences again and again: many handles are opened, used, cloned
        // and closed in turn.
        let which = ctx.choose(2);
        let world = &worlds[which];
        let kind = ctx.choose(if thorough { 3 } else { 2 });
        ctx.obs(&("periodic", which, kind));
        let turns = (if thorough { 4 } else { 3 }, 40);
        let result = match kind {
            0 => interleave_rounds(ctx, world, SimDev::new(world.image.clone(), 512), true, turns),
            1 => interleave_rounds(ctx, world, BlockDeviceReader::new(SimDev::new(world.image.clone(), 512)), true, turns),
            _ => interleave_rounds(ctx, world, file_device(&world.image), false, turns),
        };
        ctx.obs(&ctx.path());
        result
    });

    let depth = if thorough { 5 } else { 4 };
    e.family("files", &|ctx: &Ctx| {
        let which = ctx.choose(2);
        let world = &worlds[which];
        let kind = ctx.choose(4);
        ctx.obs(&("files", which, kind));
        let result = match kind {
            0 => interleave(ctx, world, file_device(&world.image), false, depth),
            1 => interleave(ctx, world, BlockDeviceReader::new(file_device(&world.image)), true, depth),
            n => {
                let file = file_of(&world.image);
                let session = Session::new();
                session.native(
                    file.as_raw_fd(),
                    Native {
                        size: world.image.size,
                        physical_block: 512,
                        logical_block: 512,
                    },
                );
                let device = NativeBlockDevice::from_file(file);
                if n == 2 {
                    interleave(ctx, world, device, false, depth)
                } else {
                    interleave(ctx, world, BlockDeviceReader::new(device), true, depth - 1)
                }
            }
        };
        ctx.obs(&ctx.path());
        result
    });

    let depth = if thorough { 5 } else { 4 };
    let arrays: Vec<(ArraySpec, Vec<Image>)> = [(6, 0, 4), (6, 2, 4), (6, 8, 5)]
        .iter()
        .map(|(level, layout, n)| {
            let spec = array_spec(*level, *layout, *n, 8, &worlds[1].image);
            let members = array_members(&spec, &worlds[1].image);
            (spec, members)
        })
        .collect();
    let arrays = &arrays;
    e.family("arrays", &|ctx: &Ctx| {
        let world = &worlds[1];
        let which = ctx.choose(arrays.len());
        let (_, members) = &arrays[which];
        let shared = ctx.flag();
        ctx.obs(&("arrays", which, shared));
        let array = MdArray::open(members.iter().enumerate().map(|(i, image)| {
            let dev = SimDev::new(image.clone(), 512);
            md_array::open_device(if shared { dev.sharing_cursor() } else { dev }, i)
        }));
        let result = interleave(ctx, world, BlockDeviceReader::new(array), true, depth);
        ctx.obs(&ctx.path());
        result
    });

    let turns = (if thorough { 3 } else { 2 }, 40);
    e.family("arrays-periodic", &|ctx: &Ctx| {
        let world = &worlds[1];
        let which = ctx.choose(arrays.len());
        let (_, members) = &arrays[which];
        let shared = ctx.flag();
        ctx.obs(&("arrays-periodic", which, shared));
        let array = MdArray::open(members.iter().enumerate().map(|(i, image)| {
            let dev = SimDev::new(image.clone(), 512);
            md_array::open_device(if shared { dev.sharing_cursor() } else { dev }, i)
        }));
        let result = interleave_rounds(ctx, world, BlockDeviceReader::new(array), true, turns);
        ctx.obs(&ctx.path());
        result
    });

    let depth = if thorough { 4 } else { 3 };
    e.family("arrays-of-files", &|ctx: &Ctx| {
        let world = &worlds[1];
        let which = ctx.choose(arrays.len());
        let (_, members) = &arrays[which];
        ctx.obs(&("arrays-of-files", which));
        let mut devices = Vec::new();
        for (i, image) in members.iter().enumerate() {
            let device = MdDevice::from_block_device(file_device(image), Some(format!("device{i}")));
            devices.push(device.map_err(|e| format!("member {i}: {e}"))?);
        }
        let array = MdArray::open(devices);
        let result = interleave(ctx, world, BlockDeviceReader::new(array), true, depth);
        ctx.obs(&ctx.path());
        result
    });

    // One member's device is also used on its own, and by two arrays.
    let depth = if thorough { 6 } else { 5 };
    e.family("shared-members", &|ctx: &Ctx| {
        let world = &worlds[1];
        let which = ctx.choose(arrays.len());
        let (spec, members) = &arrays[which];
        let shared: Vec<SimDev> = members
            .iter()
            .map(|image| SimDev::new(image.clone(), 512).sharing_cursor())
            .collect();
        let open = || -> Result<MdArray<SimDev>, String> {
            let mut devices = Vec::new();
            for (i, dev) in shared.iter().enumerate() {
                let dev = dev.try_clone().map_err(|e| e.to_string())?;
                devices.push(md_array::open_device(dev, i));
            }
            Ok(MdArray::open(devices))
        };
        let mut one = open()?;
        let mut two = open()?;
        let mut stream = BlockDeviceReader::new(one.try_clone().map_err(|e| e.to_string())?);
        let mut member = shared[0].try_clone().map_err(|e| e.to_string())?;
        let mut position = 0u64;
        let mut text = String::new();
        let mut used = 0u32;
        for step in 0..depth {
            let op = ctx.choose(6);
            used |= 1 << op;
            ctx.step();
            let block = (step as u64 * 29 + op as u64 * 7) % spec.array_sectors().min(128);
            text += &format!(" {op}({block})");
            match op {
                0 | 1 => {
                    let array = if op == 0 { &mut one } else { &mut two };
                    let got = md_array::read_block(array, block).map_err(|e| format!("block {block}: {e}"))?;
                    if world.image.bytes(block * 512, 512) != got {
                        return Err(format!("block {block} is wrong (after{text})"));
                    }
                }
                2 => {
                    let mut buf = [0; 300];
                    stream.read_exact(&mut buf).map_err(|e| format!("stream: {e}"))?;
                    if world.image.bytes(position, 300) != buf {
                        return Err(format!("the stream at {position} is wrong (after{text})"));
                    }
                    position += 300;
                }
                3 => {
                    position = block * 512 + 100;
                    stream.seek(SeekFrom::Start(position)).map_err(|e| format!("stream: {e}"))?;
                }
                4 => {
                    member.seek(SeekFrom::Start(block)).map_err(|e| e.to_string())?;
                }
                _ => {
                    two = open()?;
                }
            }
            ctx.state(&(which, position));
        }
        ctx.obs(&(which, &text));
        ctx.note(|| text.clone());
        if used.count_ones() > 1 {
            ctx.nontrivial();
        }
        Ok(())
    });

    // One block goes bad and well again: the handles that met it may be
    // lost, the others go on as if nothing had happened.
    let depth = if thorough { 6 } else { 5 };
    let touched: Vec<Vec<u64>> = worlds.iter().map(touched_blocks).collect();
    let touched = &touched;
    e.family("failures", &|ctx: &Ctx| {
        let which = ctx.choose(2);
        let world = &worlds[which];
        let block = *ctx.pick(&touched[which]);
        let stream = ctx.flag();
        let dev = SimDev::new(world.image.clone(), 512).sharing_cursor();
        let state = dev.shared.clone();
        let bs = world.bs as u64;
        let toggle = |bad: bool| state.set_bad(if bad { vec![(block * bs, (block + 1) * bs)] } else { vec![] }.as_slice());
        ctx.obs(&("failures", which, block, stream));
        let result = if stream {
            interleave_failures(ctx, world, BlockDeviceReader::new(dev), &toggle, depth)
        } else {
            interleave_failures(ctx, world, dev, &toggle, depth)
        };
        ctx.obs(&ctx.path());
        result.map_err(|e| format!("{e}; block {block} is the one that fails"))
    });

    // Two filesystems, with blocks of different sizes.
    let pairs: Vec<[World; 2]> = [[(0, Csum::None, 1), (2, Csum::Seed(5), 1)], [(1, Csum::Uuid, 0), (0, Csum::Uuid, 2)]]
        .iter()
        .map(|pair| pair.map(|(log_bs, csum, levels)| world(log_bs, csum, levels)))
        .collect();
    let pairs = &pairs;
    let depth = if thorough { 7 } else { 6 };
    e.family("two-filesystems", &|ctx: &Ctx| {
        let which = ctx.choose(pairs.len());
        let worlds = &pairs[which];
        let mut systems = Vec::new();
        for world in worlds {
            let fs = Ext4Fs::open(SimDev::new(world.image.clone(), 512)).map_err(|e| e.to_string())?;
            systems.push(fs);
        }
        let mut handles: Vec<(usize, Open<SimDev>)> = Vec::new();
        let mut text = String::new();
        let mut used = 0;
        for _ in 0..depth {
            ctx.step();
            let opens = if handles.len() < 4 { 4 } else { 0 };
            let op = ctx.choose(opens + handles.len());
            if op < opens {
                let (system, ino) = (op % 2, [2, 12][op / 2]);
                text += &format!(" open({system}, {ino})");
                used |= 1 << system;
                let handle = Handle::open(&mut systems[system], ino).map_err(|e| format!("{e} (after{text})"))?;
                handles.push((system, Open { ino, at: 0, handle }));
            } else {
                let (system, handle) = &mut handles[op - opens];
                text += &format!(" next({})", op - opens);
                handle.advance(&worlds[*system]).map_err(|e| format!("{e} (after{text})"))?;
            }
            ctx.state(&handles.iter().map(|(s, h)| (*s, h.ino, h.at)).collect::<Vec<_>>());
        }
        ctx.obs(&(which, &text));
        ctx.note(|| text.clone());
        if used == 3 {
            ctx.nontrivial();
        }
        for _ in 0..6 {
            for (system, handle) in &mut handles {
                handle
                    .advance(&worlds[*system])
                    .map_err(|e| format!("{e} (after{text}, and on by turns)"))?;
                ctx.step();
            }
        }
        Ok(())
    });

    // Hundreds of handles that are open at once, some of which are closed early.
    e.family("many-handles", &|ctx: &Ctx| {
        let which = ctx.choose(2);
        let world = &worlds[which];
        let count = *ctx.pick(if thorough { &[9usize, 17, 33, 65, 129, 257, 300, 700][..] } else { &[9usize, 17, 33, 65, 129, 257, 300][..] });
        let files = *ctx.pick(&[&[12u32, 2, 13][..], &[12], &[2], &[13, 12]]);
        let plan = (ctx.flag(), ctx.choose(4), ctx.choose(4));
        ctx.obs(&(which, count, files, plan));
        ctx.nontrivial();
        let what = || format!("{count} handles of {files:?}, plan {plan:?}");
        ctx.note(what);
        match ctx.choose(4) {
            0 => many_handles(ctx, world, SimDev::new(world.image.clone(), 512), count, files, plan),
            1 => many_handles(ctx, world, SimDev::new(world.image.clone(), 512).sharing_cursor(), count, files, plan),
            2 => many_handles(
                ctx,
                world,
                BlockDeviceReader::new(SimDev::new(world.image.clone(), 512)),
                count,
                files,
                plan,
            ),
            _ => {
                let bytes = world.image.bytes(0, world.image.size as usize);
                let count = count.min(65);
                many_handles(ctx, world, InMemoryBlockDevice::new(bytes, BlockSize(1024)), count, files, plan)
            }
        }
        .map_err(|e| format!("{}: {e}", what()))
    });

    // Many handles, one operation each, in every order.
    e.family("orders", &|ctx: &Ctx| {
        let which = ctx.choose(2);
        let world = &worlds[which];
        let kind = ctx.choose(2);
        let raw = SimDev::new(world.image.clone(), 512);
        let raw = if kind == 1 { raw.sharing_cursor() } else { raw };
        let mut fs = Ext4Fs::open(raw).map_err(|e| e.to_string())?;
        let mut other = fs.try_clone().map_err(|e| e.to_string())?;
        let mut handles = Vec::new();
        for ino in [12, 2, 13, 12, 2, 13] {
            let system = if handles.len() < 3 { &mut fs } else { &mut other };
            handles.push(Open {
                ino,
                at: 0,
                handle: Handle::open(system, ino)?,
            });
        }
        for round in 0..if thorough { 2 } else { 1 } {
            let order = if round == 0 { ctx.permutation(6) } else { ctx.permutation(4) };
            for h in &order {
                handles[*h].advance(world).map_err(|e| format!("{e} (order {order:?})"))?;
                ctx.step();
            }
            ctx.state(&handles.iter().map(|h| (h.ino, h.at)).collect::<Vec<_>>());
        }
        ctx.nontrivial();
        for _ in 0..6 {
            for handle in handles.iter_mut().rev() {
                handle.advance(world)?;
                ctx.step();
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C18

/// What happened before anything failed, and what came after.
struct Scenario<'a> {
    world: &'a World,
    /// Whether a fault took place that may not be hidden.
    hard: &'a dyn Fn() -> bool,
    /// Suspends or resumes the faults.
    pause: &'a dyn Fn(bool),
    files: &'a [u32],
}

/// Opens, lists and reads, and judges everything that comes out.
fn run_faulted<D: BlockDevice + Read + Seek>(ctx: &Ctx, s: &Scenario, raw: D, spare: D) -> Result<(), String> {
    let unjustified = |what: &str, e: &str| -> Result<(), String> {
        if (s.hard)() {
            Ok(())
        } else {
            Err(format!("{what} fails, although no fault must be reported: {e}"))
        }
    };
    let mut fs = match Ext4Fs::open(raw) {
        Ok(fs) => fs,
        Err(e) => {
            unjustified("opening", &e.to_string())?;
            // With the device well again, it opens.
            (s.pause)(true);
            let again = Ext4Fs::open(spare).map_err(|e| format!("opening fails after a fault has gone: {e}"));
            (s.pause)(false);
            again?
        }
    };
    ctx.step();
    match root_inode(&mut fs, s.world) {
        Ok(()) => {}
        Err(None) => unjustified("reading the root inode", "an error")?,
        Err(Some(e)) => return Err(e),
    }
    ctx.step();
    for ino in s.files {
        let mut handle = match Handle::open(&mut fs, *ino) {
            Ok(handle) => handle,
            Err(e) => {
                unjustified(&format!("opening inode {ino}"), &e)?;
                (s.pause)(true);
                let again =
                    Handle::open(&mut fs, *ino).map_err(|e| format!("after a fault has gone, inode {ino}: {e}"));
                (s.pause)(false);
                again?
            }
        };
        ctx.step();
        let items = &s.world.contents[ino];
        let mut at = 0;
        let mut errors = 0;
        for _ in 0..items.len() + 10 {
            ctx.step();
            match handle.next(s.world.bs) {
                Got::Item(item) if errors == 0 => {
                    if items.get(at) != Some(&item) {
                        return Err(format!("item {at} of inode {ino} is {}", show(&item)));
                    }
                    at += 1;
                }
                Got::Item(item) => {
                    // Nothing twice, nothing else.
                    match items[at..].iter().position(|i| *i == item) {
                        Some(n) => at += n + 1,
                        None => return Err(format!("after an error inode {ino} gives {}", show(&item))),
                    }
                }
                Got::End => {
                    if errors == 0 && at != items.len() {
                        return Err(format!("inode {ino} ends after {at} items, without an error"));
                    }
                    break;
                }
                Got::Error(e) => {
                    unjustified(&format!("item {at} of inode {ino}"), &e)?;
                    errors += 1;
                    if errors == 5 {
                        break;
                    }
                }
            }
        }
        if errors > 0 {
            // A fresh handle is not affected.
            (s.pause)(true);
            let fresh = (|| {
                let mut fresh = Open {
                    ino: *ino,
                    at: 0,
                    handle: Handle::open(&mut fs, *ino)?,
                };
                for _ in 0..=items.len() {
                    fresh.advance(s.world)?;
                }
                Ok(())
            })();
            (s.pause)(false);
            fresh.map_err(|e: String| format!("after an error, opened again: {e}"))?;
        }
    }
    Ok(())
}

fn run_c18(e: &mut Explorer) {
    let thorough = e.thorough;
    let worlds: Vec<World> = [(0, Csum::None, 2), (0, Csum::Uuid, 1), (2, Csum::Seed(77), 0)]
        .iter()
        .map(|(log_bs, csum, levels)| world(*log_bs, *csum, *levels))
        .collect();
    let worlds = &worlds;
    let soft = [Fault::OneByte, Fault::Half, Fault::Interrupted];
    let all = [Fault::OneByte, Fault::Half, Fault::Interrupted, Fault::Error, Fault::Eof];
    let hard_faults = [Fault::Error];

    let bound = if thorough { 4 } else { 3 };
    let device = &|ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose(ctx));
        let which = ctx.choose(worlds.len());
        let shared = ctx.flag();
        let only_soft = !kinds && ctx.flag();
        let files: &[u32] = [&[2u32][..], &[12], &[13, 2]][ctx.choose(3)];
        let world = &worlds[which];
        let dev = SimDev::new(world.image.clone(), 512);
        let dev = if shared { dev.sharing_cursor() } else { dev };
        let spare = dev.try_clone().map_err(|e| e.to_string())?;
        let state = dev.shared.clone();
        let reads = if kinds {
            &hard_faults[..]
        } else if only_soft {
            &soft[..]
        } else {
            &all[..]
        };
        dev.inject(ctx, reads, !only_soft);
        let hard = || {
            state
                .faults_injected
                .borrow()
                .iter()
                .any(|(_, f)| matches!(f, Fault::Error | Fault::Eof))
        };
        let result = run_faulted(
            ctx,
            &Scenario {
                world,
                hard: &hard,
                pause: &|p| state.pause(p),
                files,
            },
            dev,
            spare,
        );
        let injected = state.faults_injected.borrow().clone();
        if !injected.is_empty() {
            ctx.nontrivial();
        }
        ctx.obs(&(which, shared, files.len(), files[0], format!("{injected:?}"), failure_errno()));
        ctx.note(|| format!("{injected:?}"));
        result.map_err(|e| format!("{e} ({injected:?})"))
    };
    e.bounded("device", bound, &|ctx: &Ctx| device(ctx, false));
    e.bounded("device: every error", 1, &|ctx: &Ctx| device(ctx, true));

    let stream = &|ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose(ctx));
        let which = ctx.choose(worlds.len());
        let files: &[u32] = [&[2u32][..], &[12]][ctx.choose(2)];
        let block_size = *ctx.pick(&[1024u32, 4096]);
        let world = &worlds[which];
        let dev = SimDev::new(world.image.clone(), block_size).sharing_cursor();
        let spare = dev.try_clone().map_err(|e| e.to_string())?;
        let state = dev.shared.clone();
        let reads = [Fault::Interrupted, Fault::Error, Fault::Eof];
        dev.inject(ctx, if kinds { &hard_faults } else { &reads }, true);
        let hard = || {
            state
                .faults_injected
                .borrow()
                .iter()
                .any(|(_, f)| matches!(f, Fault::Error | Fault::Eof))
        };
        let result = run_faulted(
            ctx,
            &Scenario {
                world,
                hard: &hard,
                pause: &|p| state.pause(p),
                files,
            },
            BlockDeviceReader::new(dev),
            BlockDeviceReader::new(spare),
        );
        let injected = state.faults_injected.borrow().clone();
        if !injected.is_empty() {
            ctx.nontrivial();
        }
        ctx.obs(&(which, block_size, files[0], format!("{injected:?}"), failure_errno()));
        ctx.note(|| format!("{injected:?}"));
        result.map_err(|e| format!("{e} ({injected:?})"))
    };
    e.bounded("stream", bound, &|ctx: &Ctx| stream(ctx, false));
    e.bounded("stream: every error", 1, &|ctx: &Ctx| stream(ctx, true));

    // Faults of the system calls on a real file.
    let bound = if thorough { 3 } else { 2 };
    let file = &|ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose_errno(ctx));
        let which = ctx.choose(worlds.len());
        let reader = ctx.flag();
        let only_soft = !kinds && ctx.flag();
        let files: &[u32] = [&[2u32][..], &[12]][ctx.choose(2)];
        let world = &worlds[which];
        let session = Session::new();
        let dev = file_device(&world.image);
        let spare = dev.try_clone().map_err(|e| e.to_string())?;
        let reads = if kinds {
            &hard_faults[..]
        } else if only_soft {
            &soft[..]
        } else {
            &all[..]
        };
        session.inject(ctx, reads, !only_soft);
        let hard = || {
            session
                .injected()
                .iter()
                .any(|(_, f)| matches!(f, Fault::Error | Fault::Eof))
        };
        let pause = |p| session.pause(p);
        let scenario = Scenario {
            world,
            hard: &hard,
            pause: &pause,
            files,
        };
        let result = if reader {
            run_faulted(ctx, &scenario, BlockDeviceReader::new(dev), BlockDeviceReader::new(spare))
        } else {
            run_faulted(ctx, &scenario, dev, spare)
        };
        let injected = session.injected();
        if !injected.is_empty() {
            ctx.nontrivial();
        }
        ctx.obs(&(which, reader, files[0], format!("{injected:?}"), ctx.path()));
        ctx.note(|| format!("{injected:?}"));
        result.map_err(|e| format!("{e} ({injected:?})"))
    };
    e.bounded("file", bound, &|ctx: &Ctx| file(ctx, false));
    e.bounded("file: every error", 1, &|ctx: &Ctx| file(ctx, true));

    // Ranges that cannot be read, of every sector.
    e.family("bad-sectors", &|ctx: &Ctx| {
        let which = ctx.choose(worlds.len());
        let world = &worlds[which];
        let sectors = world.image.size / 512;
        let unit = if which == 2 { 4 } else { 1 };
        let first = ctx.choose((sectors / unit) as usize) as u64 * unit;
        let shared = ctx.flag();
        let dev = SimDev::new(world.image.clone(), 512).bad_range(first * 512, (first + unit) * 512);
        let dev = if shared { dev.sharing_cursor() } else { dev };
        ctx.obs(&(which, first, shared));
        ctx.note(|| format!("sector {first} is unreadable"));
        let Ok(mut fs) = Ext4Fs::open(dev) else {
            ctx.nontrivial();
            return Ok(());
        };
        for ino in [2, 12, 13] {
            ctx.step();
            let Ok(mut handle) = Handle::open(&mut fs, ino) else {
                ctx.nontrivial();
                continue;
            };
            let items = &world.contents[&ino];
            let mut at = 0;
            loop {
                ctx.step();
                match handle.next(world.bs) {
                    Got::Item(item) if items.get(at) == Some(&item) => at += 1,
                    Got::Item(item) => return Err(format!("item {at} of inode {ino} is {}", show(&item))),
                    Got::End if at == items.len() => break,
                    Got::End => return Err(format!("inode {ino} ends after {at} items")),
                    Got::Error(_) => {
                        ctx.nontrivial();
                        break;
                    }
                }
            }
        }
        Ok(())
    });

    // Devices that end early, anywhere.
    e.family("truncated", &|ctx: &Ctx| {
        let which = ctx.choose(worlds.len());
        let world = &worlds[which];
        let unit = if which == 2 { 1024 } else { 256 };
        let size = ctx.choose((world.image.size / unit) as usize + 1) as u64 * unit;
        let memory = ctx.flag();
        ctx.obs(&(which, size, memory));
        ctx.note(|| format!("the device has {size} bytes"));
        let check = |result: Result<(), String>| result;
        let image = world.image.resized(size);
        if memory {
            let bytes = image.bytes(0, size as usize);
            check(read_truncated(ctx, world, InMemoryBlockDevice::new(bytes, BlockSize(512))))
        } else {
            check(read_truncated(ctx, world, BlockDeviceReader::new(SimDev::new(image, 256))))
        }
    });

    // Members of arrays that fail.
    let specs: Vec<(ArraySpec, Vec<Image>)> = [(6, 3, 4), (6, 2, 5), (6, 5, 4)]
        .iter()
        .map(|(level, layout, n)| {
            let spec = array_spec(*level, *layout, *n, 8, &worlds[1].image);
            let members = array_members(&spec, &worlds[1].image);
            (spec, members)
        })
        .collect();
    let specs = &specs;
    let bound = if thorough { 3 } else { 2 };
    let array = &|ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose(ctx));
        let world = &worlds[1];
        let which = ctx.choose(specs.len());
        let (_, members) = &specs[which];
        let faulty = ctx.choose(members.len());
        let ino = *ctx.pick(&[2u32, 12]);
        let mut state = None;
        let mut devices = Vec::new();
        for (i, image) in members.iter().enumerate() {
            let dev = SimDev::new(image.clone(), 512);
            if i == faulty {
                state = Some(dev.shared.clone());
            }
            devices.push((i, dev.try_clone().map_err(|e| e.to_string())?, dev));
        }
        let state = state.unwrap();
        let mut opened = Vec::new();
        let mut sources = Vec::new();
        for (i, dev, source) in devices {
            opened.push(md_array::open_device(dev, i));
            sources.push(source);
        }
        let array = MdArray::open(opened);
        let stream = BlockDeviceReader::new(array);
        let spare = stream.try_clone().map_err(|e| e.to_string())?;
        let reads = [Fault::Error, Fault::Eof, Fault::Interrupted];
        sources[faulty].inject(ctx, if kinds { &hard_faults } else { &reads }, true);
        let hard = || !state.faults_injected.borrow().is_empty();
        let result = run_faulted(
            ctx,
            &Scenario {
                world,
                hard: &hard,
                pause: &|p| state.pause(p),
                files: &[ino],
            },
            stream,
            spare,
        );
        let injected = state.faults_injected.borrow().clone();
        if !injected.is_empty() {
            ctx.nontrivial();
        }
        ctx.obs(&(which, faulty, ino, format!("{injected:?}"), ctx.path()));
        ctx.note(|| format!("member {faulty}: {injected:?}"));
        result.map_err(|e| format!("{e} (member {faulty}: {injected:?})"))
    };
    e.bounded("array", bound, &|ctx: &Ctx| array(ctx, false));
    e.bounded("array: every error", 1, &|ctx: &Ctx| array(ctx, true));
}

fn read_truncated<D: BlockDevice + Read + Seek>(ctx: &Ctx, world: &World, dev: D) -> Result<(), String> {
    let Ok(mut fs) = Ext4Fs::open(dev) else {
        ctx.nontrivial();
        return Ok(());
    };
    for ino in [2u32, 12, 13] {
        ctx.step();
        let mut handle = match fs.open_file(InodeNumber(ino)) {
            Ok(Ext4File::Directory(dir)) if ino == 2 => Handle::Dir(dir),
            Ok(Ext4File::RegularFile(file)) if ino != 2 => Handle::File(file),
            Ok(_) => return Err(format!("inode {ino} is of another type")),
            Err(_) => {
                ctx.nontrivial();
                continue;
            }
        };
        let items = &world.contents[&ino];
        let mut at = 0;
        loop {
            ctx.step();
            match handle.next(world.bs) {
                Got::Item(item) if items.get(at) == Some(&item) => at += 1,
                Got::Item(item) => return Err(format!("item {at} of inode {ino} is {}", show(&item))),
                Got::End if at == items.len() => break,
                Got::End => return Err(format!("inode {ino} ends after {at} items")),
                Got::Error(_) => {
                    ctx.nontrivial();
                    break;
                }
            }
        }
    }
    Ok(())
}
