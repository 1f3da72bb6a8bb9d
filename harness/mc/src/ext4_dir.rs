//! C15, C16: directories, and the checksums of their blocks and of the blocks
//! of extent trees.

use crate::explore::{Ctx, Explorer};
use crate::ext4_fs::{open_file, open_image};
use crate::ext4ref::{
    crc32c, feature, get, mode, pattern_block, put, put_record, Csum, Fs, Geo, RawInode, Record, Run, Tree,
};
use crate::simdev::Image;
use crate::{Check, Level};
use std::collections::BTreeMap;
use std::io::{Read, Seek};
use sut::verif::ext4::{Ext4Directory, Ext4File, Ext4Fs, FileType, InodeNumber};
use sut::verif::BlockDevice;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            level: Level::Exploration,
            rule: "directories with every enumerated arrangement of records are written by the \
                   reference, listed by the real code and compared entry by entry; malformed ones \
                   with a reference reading of their bytes; non-trivial if there is an entry to \
                   list or something malformed",
            assumptions: &[
                "directories with a hash index are refused by the program and not judged",
                "names do not contain NUL",
            ],
            note: "All partitions of a block in the bounds into used, deleted and padding records; \
                   every name length and byte value, every type and every bit of the inode number; \
                   every value of every byte of the record headers of several blocks.",
            run: run_c15,
        },
        Check {
            id: "C16",
            level: Level::Faults,
            rule: "each bit (and, deeper, each pair of bits and each value of each byte) of \
                   checksummed directory blocks and extent tree blocks is changed, blocks are moved \
                   between inodes and sealed with wrong seeds, and the real code reads them; \
                   non-trivial if the block must be refused",
            assumptions: &["two changed blocks whose checksums collide are not looked for"],
            note: "Every bit of every such block of the enumerated filesystems; every bit of the \
                   inode number, generation, UUID and seed that checksums depend on, with and \
                   without the features that govern them.",
            run: run_c16,
        },
    ]
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Entry {
    pub name: Vec<u8>,
    pub inode: u32,
    pub file_type: u8,
}

/// The code of directory entries for a type.
pub fn type_code(file_type: FileType) -> u8 {
    match file_type {
        FileType::RegularFile => 1,
        FileType::Directory => 2,
        FileType::CharacterDevice => 3,
        FileType::BlockDevice => 4,
        FileType::Fifo => 5,
        FileType::Socket => 6,
        FileType::SymbolicLink => 7,
        FileType::Unknown(n) => n,
    }
}

pub fn open_dir<D: BlockDevice + Read + Seek>(fs: &mut Ext4Fs<D>, ino: u32) -> Result<Ext4Directory<D>, String> {
    match fs.open_file(InodeNumber(ino)) {
        Ok(Ext4File::Directory(dir)) => Ok(dir),
        Ok(_) => Err(format!("inode {ino} is not a directory")),
        Err(e) => Err(format!("directory {ino} does not open: {e}")),
    }
}

pub enum Next {
    Entry(Entry),
    End,
    Error(String),
}

pub fn next_entry<D: BlockDevice + Read + Seek>(dir: &mut Ext4Directory<D>) -> Next {
    match dir.read_next_entry() {
        Ok(Some(entry)) => {
            let name = entry.name();
            Next::Entry(Entry {
                name: <&[u8]>::from(&name).to_vec(),
                inode: entry.inode().0,
                file_type: type_code(FileType::from(entry.file_type())),
            })
        }
        Ok(None) => Next::End,
        Err(e) => Next::Error(e.to_string()),
    }
}

/// Requires exactly the given entries.
pub fn check_listing<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    dir: &mut Ext4Directory<D>,
    want: &[Entry],
) -> Result<(), String> {
    for (i, want) in want.iter().enumerate() {
        match next_entry(dir) {
            Next::Entry(entry) if entry == *want => {}
            Next::Entry(entry) => return Err(format!("entry {i} is {entry:?}, should be {want:?}")),
            Next::End => return Err(format!("the directory ends before entry {i}, {want:?}")),
            Next::Error(e) => return Err(format!("an error instead of entry {i}, {want:?}: {e}")),
        }
        ctx.step();
    }
    for _ in 0..3 {
        match next_entry(dir) {
            Next::End => {}
            Next::Entry(entry) => return Err(format!("there is no entry {entry:?}")),
            Next::Error(e) => return Err(format!("an error at the end of the directory: {e}")),
        }
        ctx.step();
    }
    Ok(())
}

pub fn entries_of(blocks: &[Vec<Record>]) -> Vec<Entry> {
    blocks
        .iter()
        .flatten()
        .filter(|r| r.inode != 0)
        .map(|r| Entry {
            name: r.name.clone(),
            inode: r.inode,
            file_type: r.file_type,
        })
        .collect()
}

fn check_dir(ctx: &Ctx, fs: &mut Fs, blocks: &[Vec<Record>], scattered: bool) -> Result<(), String> {
    fs.add_dir(2, blocks, scattered);
    let want = entries_of(blocks);
    let mut real = open_image(&fs.image)?;
    let mut dir = open_dir(&mut real, 2)?;
    check_listing(ctx, &mut dir, &want)
}

fn name(len: usize, salt: usize) -> Vec<u8> {
    (0..len).map(|i| b'a' + ((i * 7 + salt) % 26) as u8).collect()
}

fn geo(log_bs: u32, csum: Csum) -> Geo {
    Geo {
        blocks: 100,
        inodes_per_group: 16,
        ..Geo::small(log_bs, csum)
    }
}

/// A filesystem whose root directory has one entry, behind very many unused
/// ones, or (if not `all`) only as many as fill the stack of unoptimised code. All blocks of unused entries are the same one.
pub fn long_run(ctx: &Ctx, all: bool) -> (Fs, String) {
    let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
    let log_bs = *ctx.pick(&[2u32, 6]);
    let kind = ctx.choose(3);
    let most = if all { u32::MAX } else { [340, 2000, 100_000][kind] };
    ctx.obs(&(csum, log_bs, kind));
    let mut fs = Fs::new(Geo {
        blocks: 1000,
        ..geo(log_bs, csum)
    });
    let generation = RawInode::new(256, 0, 0).generation();
    let space = fs.dir_space();
    let unused = match kind {
        0 => vec![Record::new(0, b"", 0); space / 8],
        1 => vec![Record::new(0, &name(200, 1), 1); space / 208],
        _ => vec![Record::new(0, b"", 0)],
    };
    let unused_at = fs.alloc(1);
    let bytes = fs.dir_block(2, generation, &unused);
    fs.write_block(unused_at, &bytes);
    let last_at = fs.alloc(1);
    let bytes = fs.dir_block(2, generation, &[Record::new(12, b"last", 1)]);
    fs.write_block(last_at, &bytes);
    let per_node = u32::from(fs.node_max());
    let nodes = if log_bs == 6 { 1 } else { per_node };
    let nodes = nodes.min(most.div_ceil(per_node));
    let count = (nodes * per_node).min(most);
    let run = |logical| Run {
        logical,
        len: 1,
        start: if logical + 1 == count { last_at } else { unused_at },
        unwritten: false,
    };
    let leaf = |n: u32| Tree::Leaf((n * per_node..((n + 1) * per_node).min(count)).map(run).collect());
    let children = (0..nodes).map(|n| (n * per_node, fs.alloc(1), leaf(n))).collect();
    let mut tree = Tree::Index(children);
    if nodes > 1 {
        tree = Tree::Index(vec![(0, fs.alloc(1), tree)]);
    }
    let size = u64::from(count) * fs.bs() as u64;
    fs.add_file(2, mode::DIR | 0o755, size, &tree);
    let what = format!("{csum:?}, {count} blocks of {} bytes with {} unused entries", fs.bs(), unused.len());
    (fs, what)
}

fn run_c15(e: &mut Explorer) {
    let thorough = e.thorough;

    // Every arrangement of records in a directory of some blocks.
    let bound = if thorough { 4 } else { 3 };
    e.bounded("records", bound, &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid, Csum::Seed(0x1234_5678)]);
        let scattered = ctx.flag();
        let mut fs = Fs::new(geo(0, csum));
        let space = fs.dir_space();
        let mut blocks = Vec::new();
        for b in 0..[1, 2, 3][ctx.deviate(3)] {
            let mut records = Vec::new();
            let mut left = space;
            for r in 0..6 {
                let kind = ctx.deviate(4);
                let len = [9, 1, 2, 3, 4, 5, 8, 40, 150, 254, 255][ctx.deviate(11)];
                let inode = 11 + r + 10 * b;
                let mut record = match kind {
                    // Used, deleted, padding, long padding.
                    0 => Record::new(inode, &name(len, r as usize), 1 + (r % 7) as u8),
                    1 => Record::new(0, &name(len, r as usize), 1),
                    2 => Record::new(0, b"", 0),
                    _ => Record {
                        rec_len: 268,
                        ..Record::new(0, b"", 0)
                    },
                };
                record.rec_len = record.len() + [0, 4, 8, 12, 300][ctx.deviate(5)];
                if record.len() > left {
                    break;
                }
                left -= record.len();
                records.push(record);
            }
            if records.is_empty() {
                return Ok(());
            }
            blocks.push(records);
        }
        ctx.obs(&(csum, scattered, &blocks));
        ctx.note(|| format!("{csum:?}, scattered {scattered}, {blocks:?}"));
        if blocks.iter().flatten().any(|r| r.inode != 0) {
            ctx.nontrivial();
        }
        check_dir(ctx, &mut fs, &blocks, scattered)
    });

    // Every sequence of blocks of several kinds, empty ones among them.
    e.family("block-kinds", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let scattered = ctx.flag();
        let log_bs = *ctx.pick(if thorough { &[0u32, 1, 2, 6][..] } else { &[0, 6] });
        let mut fs = Fs::new(geo(log_bs, csum));
        let count = ctx.range(1, if !thorough || log_bs == 6 { 4 } else { 5 });
        let mut kinds = Vec::new();
        let mut blocks = Vec::new();
        for b in 0..count {
            let kind = ctx.choose(if log_bs == 6 && !thorough { 4 } else { 8 });
            let used = |n: usize| Record::new(1 + ((3 * b + n) % 15) as u32, format!("n{b}{n}").as_bytes(), 1 + (n % 7) as u8);
            let unused = || Record::new(0, b"", 0);
            let deleted = |len| Record::new(0, &name(len, b), 1);
            blocks.push(match kind {
                0 => vec![used(0), used(1)],
                // Emptied, never used, and emptied one entry at a time.
                1 => vec![unused()],
                2 => vec![deleted(5)],
                3 => vec![deleted(3), used(0)],
                4 => vec![unused(), deleted(1), deleted(200), unused()],
                5 => vec![used(0)],
                6 => vec![used(0), deleted(4), used(1), unused()],
                _ => vec![unused(), used(0), used(1), deleted(7), used(2)],
            });
            kinds.push(kind);
        }
        ctx.obs(&(csum, scattered, log_bs, &kinds));
        ctx.note(|| format!("{csum:?}, blocks of {}, of kinds {kinds:?}", fs.bs()));
        if blocks.iter().flatten().any(|r| r.inode != 0) {
            ctx.nontrivial();
        }
        check_dir(ctx, &mut fs, &blocks, scattered)
    });

    e.family("name-lengths", &|ctx: &Ctx| {
        let log_bs = ctx.choose(7) as u32;
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let len = ctx.range(1, 255);
        let slack = *ctx.pick(&[0usize, 4, 8, 200]);
        let mut fs = Fs::new(geo(log_bs, csum));
        let mut blocks = Vec::new();
        for b in 0..2 {
            let mut first = Record::new(12 + b, &name(len, 0), 1);
            first.rec_len = first.least() + slack;
            blocks.push(vec![first, Record::new(13 + b, &name(len, 1), 2)]);
        }
        ctx.obs(&(log_bs, csum, len, slack));
        ctx.note(|| format!("blocks of {} bytes, {csum:?}, names of {len}, slack {slack}", fs.bs()));
        ctx.nontrivial();
        check_dir(ctx, &mut fs, &blocks, false)
    });

    e.family("name-bytes", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let len = *ctx.pick(&[1usize, 2, 3, 4, 5, 8, 16, 255]);
        let at = if len < 16 { ctx.choose(len) } else { [0, 7, len - 1][ctx.choose(3)] };
        let byte = ctx.range(1, 255) as u8;
        let mut text = name(len, 3);
        text[at] = byte;
        let all = vec![byte; len];
        let mut fs = Fs::new(geo(0, csum));
        let blocks = vec![vec![
            Record::new(12, &text, 1),
            Record::new(13, &all, 2),
            Record::new(14, b"last", 1),
        ]];
        ctx.obs(&(csum, len, at, byte));
        ctx.note(|| format!("byte {at} of {len} is {byte:#x}"));
        ctx.nontrivial();
        check_dir(ctx, &mut fs, &blocks, false)
    });

    e.family("types-and-inodes", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let filetype = ctx.flag();
        let (file_type, inode) = if ctx.flag() {
            (ctx.choose(256) as u8, *ctx.pick(&[1u32, 2, 11, 16]))
        } else {
            (
                1,
                match ctx.choose(64) {
                    n @ 0..=31 => 1 << n,
                    n => u32::MAX >> (n - 32),
                },
            )
        };
        // Numbers of inodes beyond the last are judged leniently.
        let beyond = inode > 16;
        let mut fs = Fs::new(geo(0, csum));
        if !filetype {
            let incompat = get(&fs.sb, 0x60, 4) & !u64::from(feature::INCOMPAT_FILETYPE);
            put(&mut fs.sb, 0x60, 4, incompat);
            fs.write_superblock();
        }
        let blocks = vec![vec![
            Record::new(2, b".", 2),
            Record::new(inode, b"x", file_type),
            Record::new(12, b"other", 1),
        ]];
        ctx.obs(&(csum, filetype, file_type, inode));
        ctx.note(|| format!("type {file_type}, inode {inode}"));
        ctx.nontrivial();
        if !filetype && file_type != 0 {
            // The type is the upper part of the length of the name.
            return Ok(());
        }
        match check_dir(ctx, &mut fs, &blocks, false) {
            Err(_) if beyond => {
                let image = fs.image.clone();
                judge(ctx, &fs, &image, 2, 1)
            }
            result => result,
        }
    });

    // Blocks with as many records as fit.
    e.family("full-blocks", &|ctx: &Ctx| {
        let log_bs = *ctx.pick(if thorough { &[0u32, 1, 2, 3, 4, 5, 6][..] } else { &[0, 2, 6] });
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let len = ctx.range(1, if thorough { 255 } else { 40 });
        let every = ctx.range(1, 3);
        let mut fs = Fs::new(geo(log_bs, csum));
        let space = fs.dir_space();
        let one = Record::new(1, &name(len, 0), 1).least();
        let records: Vec<Record> = (0..space / one)
            .map(|i| {
                let inode = if i % every == 0 { 1 + i as u32 % 16 } else { 0 };
                Record::new(inode, &name(len, i), 1 + (i % 7) as u8)
            })
            .collect();
        ctx.obs(&(log_bs, csum, len, every));
        ctx.note(|| format!("{} records with names of {len} bytes", records.len()));
        ctx.nontrivial();
        check_dir(ctx, &mut fs, &[records], false)
    });

    // More entries than 16 bits can count.
    e.family("many-entries", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let log_bs = *ctx.pick(&[2u32, 6]);
        let every = *ctx.pick(&[1usize, 2]);
        let mut fs = Fs::new(Geo {
            blocks: 1000,
            ..geo(log_bs, csum)
        });
        let per_block = fs.dir_space() / 12;
        let blocks: Vec<Vec<Record>> = (0..70_000usize.div_ceil(per_block))
            .map(|b| {
                (b * per_block..(b + 1) * per_block)
                    .map(|i| {
                        let name: Vec<u8> = (0..4).map(|p| b'0' + (i / 64usize.pow(p) % 64) as u8).collect();
                        let inode = if i % every == 0 { 1 + i as u32 % 16 } else { 0 };
                        Record::new(inode, &name, 1 + (i % 7) as u8)
                    })
                    .collect()
            })
            .collect();
        ctx.obs(&(csum, log_bs, every));
        ctx.nontrivial();
        check_dir(ctx, &mut fs, &blocks, false)
    });

    // Record lengths around the limits of their encoding in large blocks.
    e.family("long-records", &|ctx: &Ctx| {
        let log_bs = ctx.choose(7) as u32;
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let used = ctx.flag();
        let alternative = ctx.flag();
        let mut fs = Fs::new(geo(log_bs, csum));
        let space = fs.dir_space();
        let first = *ctx.pick(&[0usize, 12, 16, 264, 1000]);
        let mut records = Vec::new();
        if first > 0 {
            records.push(Record {
                rec_len: first,
                ..Record::new(12, b"a", 1)
            });
        }
        records.push(Record::new(if used { 13 } else { 0 }, b"bcd", 2));
        let second = vec![Record::new(14, b"second", 1)];
        let blocks = [records, second];
        fs.add_dir(2, &blocks, false);
        if alternative {
            // The other encoding of 64 KiB.
            let first_block = fs.next - 2;
            for block in [first_block, first_block + 1] {
                let mut bytes = fs.image.bytes(block * fs.bs() as u64, fs.bs());
                if get(&bytes, 4, 2) == 0xffff {
                    put(&mut bytes, 4, 2, 0);
                    fs.write_block(block, &bytes);
                }
            }
        }
        ctx.obs(&(log_bs, csum, used, alternative, first));
        ctx.note(|| format!("blocks of {} bytes, {first} bytes in the first record, {space}", fs.bs()));
        ctx.nontrivial();
        let mut real = open_image(&fs.image)?;
        let mut dir = open_dir(&mut real, 2)?;
        check_listing(ctx, &mut dir, &entries_of(&blocks))
    });

    // Many blocks, over several levels of extents.
    e.family("many-blocks", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let count = ctx.choose(if thorough { 65 } else { 33 });
        let per_run = ctx.range(1, 4);
        let depth = ctx.choose(4);
        let holes_between = ctx.flag();
        let mut fs = Fs::new(Geo {
            blocks: 400,
            ..geo(0, csum)
        });
        let generation = RawInode::new(256, 0, 0).generation();
        let mut want = Vec::new();
        let mut runs = Vec::new();
        let mut logical = 0;
        while logical < count {
            let len = per_run.min(count - logical);
            let start = fs.alloc(len as u64 + u64::from(holes_between));
            for i in 0..len {
                let n = (logical + i) as u32;
                let records = vec![
                    Record::new(1 + n % 16, format!("a{n}").as_bytes(), 1),
                    Record::new(0, b"deleted", 1),
                    Record::new(1 + n % 15, format!("b{n}").as_bytes(), 2),
                ];
                let bytes = fs.dir_block(2, generation, &records);
                fs.write_block(start + i as u64, &bytes);
                want.extend(entries_of(&[records]));
            }
            runs.push(Run {
                logical: logical as u32,
                len: len as u16,
                start,
                unwritten: false,
            });
            logical += len;
        }
        let mut level: Vec<Tree> = if depth == 0 {
            if runs.len() > 4 {
                return Ok(());
            }
            vec![Tree::Leaf(runs)]
        } else {
            runs.chunks(3).map(|runs| Tree::Leaf(runs.to_vec())).collect()
        };
        if count == 0 && depth > 0 {
            return Ok(());
        }
        fn first(tree: &Tree) -> u32 {
            match tree {
                Tree::Leaf(runs) => runs[0].logical,
                Tree::Index(children) => children[0].0,
            }
        }
        for d in 0..depth {
            let fan = if d + 1 == depth { 4 } else { 3 };
            let last = d + 1 == depth;
            level = level
                .chunks(fan)
                .map(|trees| {
                    Tree::Index(
                        trees
                            .iter()
                            .map(|tree| (first(tree), fs.alloc(1), tree.clone()))
                            .collect(),
                    )
                })
                .collect();
            if last && level.len() != 1 {
                return Ok(());
            }
        }
        ctx.obs(&(csum, count, per_run, depth, holes_between));
        ctx.note(|| format!("{count} blocks in runs of {per_run}, tree of depth {depth}"));
        ctx.nontrivial();
        fs.add_file(2, mode::DIR | 0o755, count as u64 * 1024, &level[0]);
        let mut real = open_image(&fs.image)?;
        let mut dir = open_dir(&mut real, 2)?;
        check_listing(ctx, &mut dir, &want)
    });

    // Runs of unused entries and blocks that are longer than any stack is deep.
    e.family("long-runs", &|ctx: &Ctx| {
        let (fs, what) = long_run(ctx, true);
        ctx.note(|| what);
        ctx.nontrivial();
        let mut real = open_image(&fs.image)?;
        let mut dir = open_dir(&mut real, 2)?;
        check_listing(ctx, &mut dir, &[Entry { name: b"last".to_vec(), inode: 12, file_type: 1 }])
    });

    // What is left over between records is not listed.
    e.family("stale-bytes", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let len = ctx.range(1, 12);
        let slack = *ctx.pick(&[0usize, 4, 12, 16, 40, 100]);
        let deleted = ctx.flag();
        let fill = *ctx.pick(&[0xffu8, b'z', 1]);
        let stale_record = ctx.flag();
        let mut fs = Fs::new(geo(0, csum));
        let mut first = Record::new(12, &name(len, 0), 1);
        first.rec_len = first.least() + slack;
        let blocks = vec![vec![
            first.clone(),
            Record::new(if deleted { 0 } else { 13 }, &name(len, 5), 2),
            Record::new(14, b"end", 1),
        ]];
        let inode = fs.add_dir(2, &blocks, false);
        let block = fs.next - 1;
        let mut bytes = fs.image.bytes(block * 1024, 1024);
        for at in 8 + len..first.len() {
            bytes[at] = fill;
        }
        let tail = 1024 - if csum == Csum::None { 0 } else { 12 };
        let after = first.len() + blocks[0][1].len() + 8 + 3;
        bytes[after..tail].fill(fill);
        if stale_record {
            let stale = Record::new(15, b"st", 1);
            if slack >= 12 {
                put_record(&mut bytes[first.least()..], &stale, slack);
            }
            put_record(&mut bytes[after + 1..], &stale, 12);
            put_record(&mut bytes[tail - 12..], &stale, 12);
        }
        fs.seal_dir(2, inode.generation(), &mut bytes);
        fs.write_block(block, &bytes);
        ctx.obs(&(csum, len, slack, deleted, fill, stale_record));
        ctx.note(|| format!("names of {len} bytes, slack {slack}, filled with {fill:#x}"));
        ctx.nontrivial();
        let mut real = open_image(&fs.image)?;
        let mut dir = open_dir(&mut real, 2)?;
        check_listing(ctx, &mut dir, &entries_of(&blocks))
    });

    // Every byte of the headers of records, and special values of the fields.
    e.family("header-bytes", &|ctx: &Ctx| {
        let base = malformable(ctx);
        let record = ctx.choose(base.at.len());
        let byte = ctx.choose(9);
        let value = ctx.choose(256) as u8;
        ctx.obs(&(base.number, record, byte, value));
        ctx.note(|| format!("base {}, record {record}, byte {byte} is {value:#x}", base.number));
        let (block, at) = base.at[record];
        let image = base.edited(|blocks| blocks[block][at + byte] = value);
        judge(ctx, &base.fs, &image, 2, base.blocks.len())
    });

    let bound = if thorough { 3 } else { 2 };
    e.bounded("fields", bound, &|ctx: &Ctx| {
        let base = malformable(ctx);
        let bs = base.fs.bs() as u64;
        let mut made = Vec::new();
        let image = base.edited(|blocks| {
            for (record, (block, at)) in base.at.iter().enumerate() {
                let mut field = |offset: usize, width: usize, values: &[u64]| {
                    let n = ctx.deviate(values.len() + 1);
                    if n > 0 {
                        put(&mut blocks[*block], at + offset, width, values[n - 1]);
                        made.push((record, offset, values[n - 1]));
                    }
                };
                let rest = bs - *at as u64;
                field(0, 4, &[0, 16, 17, 0xffff_ffff]);
                field(
                    4,
                    2,
                    &[
                        0, 1, 4, 7, 8, 9, 10, 11, 12, 13, 16, 20, rest & 0xffff, (rest - 4) & 0xffff, (rest - 8) & 0xffff,
                        (rest - 11) & 0xffff, (rest - 12) & 0xffff, (rest + 4) & 0xffff, 0xfffc, 0xffff,
                    ],
                );
                field(6, 1, &[0, 1, 4, 5, 8, 255]);
                field(7, 1, &[0, 0xde, 255]);
            }
        });
        ctx.obs(&(base.number, &made));
        ctx.note(|| format!("base {}: (record, offset, value) {made:?}", base.number));
        judge(ctx, &base.fs, &image, 2, base.blocks.len())
    });

    // Directories whose size and tree do not fit.
    e.family("sizes", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let mut fs = Fs::new(geo(0, csum));
        let blocks: Vec<Vec<Record>> = (0..3)
            .map(|b| {
                vec![
                    Record::new(12, format!("x{b}").as_bytes(), 1),
                    Record::new(13, format!("y{b}").as_bytes(), 2),
                ]
            })
            .collect();
        let mut inode = fs.add_dir(2, &blocks, ctx.flag());
        let size = match ctx.choose(70) {
            n @ 0..=49 => n as u64 * 128,
            n => (1u64 << (n - 50 + 12)) + u64::from(n as u32 % 2),
        };
        inode.set_size(size);
        fs.write_inode(2, &inode);
        ctx.obs(&(csum, size));
        ctx.note(|| format!("{size} bytes"));
        ctx.nontrivial();
        // What is listed are the first entries.
        let want = entries_of(&blocks);
        let whole = (size / 1024).min(3) as usize * 2;
        let mut real = open_image(&fs.image)?;
        let mut dir = open_dir(&mut real, 2)?;
        let mut got = 0;
        for _ in 0..20 {
            ctx.step();
            match next_entry(&mut dir) {
                Next::Entry(entry) => {
                    if want.get(got) != Some(&entry) || got >= size.div_ceil(1024) as usize * 2 {
                        return Err(format!("entry {got} is {entry:?}"));
                    }
                    got += 1;
                }
                Next::End => {
                    if got < whole || size > 3 * 1024 {
                        return Err(format!("the directory ends after {got} entries, without an error"));
                    }
                    return Ok(());
                }
                Next::Error(e) => {
                    if got < whole {
                        return Err(format!("only {got} entries, then {e}"));
                    }
                    if size % 1024 == 0 && size <= 3 * 1024 {
                        return Err(format!("an error at the end: {e}"));
                    }
                    return Ok(());
                }
            }
        }
        Err("the listing does not end".to_string())
    });
}

/// A directory to be damaged: the positions of its records, by block.
struct Malformable {
    number: usize,
    fs: Fs,
    generation: u32,
    blocks: Vec<u64>,
    at: Vec<(usize, usize)>,
}

fn malformable(ctx: &Ctx) -> Malformable {
    let number = ctx.choose(8);
    let csum = if number % 2 == 1 { Csum::Uuid } else { Csum::None };
    let contents = match number / 2 {
        0 => vec![vec![
            Record::new(2, b".", 2),
            Record::new(2, b"..", 2),
            Record::new(11, b"lost+found", 2),
        ]],
        1 => vec![
            vec![
                Record::new(12, b"one", 1),
                Record::new(0, b"gone", 1),
                Record {
                    rec_len: 200,
                    ..Record::new(13, b"two", 1)
                },
                Record::new(14, &name(200, 0), 7),
            ],
            vec![Record::new(15, b"second-block", 1), Record::new(16, b"e", 5)],
        ],
        2 => vec![
            vec![Record::new(0, b"", 0)],
            vec![Record::new(12, &name(255, 1), 1), Record::new(0, &name(255, 3), 1)],
        ],
        _ => vec![vec![Record::new(12, b"big", 1)], vec![Record::new(13, b"a", 1), Record::new(14, b"b", 1)]],
    };
    let mut fs = Fs::new(geo(if number / 2 == 3 { 6 } else { 0 }, csum));
    let inode = fs.add_dir(2, &contents, true);
    let first = fs.next - 2 * contents.len() as u64;
    let blocks: Vec<u64> = (0..contents.len() as u64).map(|i| first + 2 * i).collect();
    let mut at = Vec::new();
    for (block, records) in contents.iter().enumerate() {
        let mut offset = 0;
        for record in records {
            at.push((block, offset));
            offset += record.len();
        }
    }
    Malformable {
        number,
        generation: inode.generation(),
        fs,
        blocks,
        at,
    }
}

impl Malformable {
    /// The filesystem with changed blocks, their checksums right.
    fn edited(&self, edit: impl FnOnce(&mut [Vec<u8>])) -> Image {
        let mut fs = self.fs.clone();
        let bs = fs.bs();
        let mut blocks: Vec<Vec<u8>> = self
            .blocks
            .iter()
            .map(|b| fs.image.bytes(b * bs as u64, bs))
            .collect();
        edit(&mut blocks);
        for (bytes, block) in blocks.iter_mut().zip(&self.blocks) {
            fs.seal_dir(2, self.generation, bytes);
            fs.write_block(*block, bytes);
        }
        fs.image
    }
}

/// What a reading of a directory block may give.
#[derive(Debug)]
struct Item {
    entry: Entry,
    /// Unusual, so that an error, or a cleaned name, is right as well.
    odd: bool,
    /// A name that may also be left out.
    skippable: bool,
}

/// The items of a block, and whether it ends in something malformed.
fn parse(block: &[u8], len: usize, inodes: u32) -> (Vec<Item>, bool) {
    let mut items = Vec::new();
    let mut at = 0;
    while at < len {
        let rest = len - at;
        if rest < 8 {
            return (items, true);
        }
        let inode = get(block, at, 4) as u32;
        let rec_len = match get(block, at + 4, 2) as usize {
            0 | 0xffff if rest == 0x10000 => 0x10000,
            n => n,
        };
        let name_len = usize::from(block[at + 6]);
        if rec_len < 8 + name_len || rec_len > rest {
            return (items, true);
        }
        let odd_record = rec_len % 4 != 0 || rec_len < 12;
        let name = block[at + 8..][..name_len].to_vec();
        let odd_name = name.contains(&0) || name.contains(&b'/') || name.is_empty();
        if inode != 0 || odd_record {
            items.push(Item {
                odd: odd_record || odd_name || inode > inodes,
                skippable: name.is_empty() || inode == 0,
                entry: Entry {
                    name,
                    inode,
                    file_type: block[at + 7],
                },
            });
        }
        at += rec_len;
    }
    (items, false)
}

/// Lists a directory whose blocks may be malformed, and judges the result by
/// the bytes of its blocks.
fn judge(ctx: &Ctx, fs: &Fs, image: &Image, ino: u32, count: usize) -> Result<(), String> {
    let bs = fs.bs();
    let len = fs.dir_space();
    let inode = image.bytes(fs.inode_at(ino), 256);
    let root = &inode[0x28..];
    let mut blocks = Vec::new();
    for i in 0..get(root, 2, 2) as usize {
        let start = get(root, 12 + 12 * i + 8, 4);
        for n in 0..get(root, 12 + 12 * i + 4, 2) {
            blocks.push(image.bytes((start + n) * bs as u64, bs));
        }
    }
    assert!(blocks.len() == count, "harness: block count");
    // In order: items, and ends of malformed blocks.
    let mut expected: Vec<Option<Item>> = Vec::new();
    for block in &blocks {
        let (items, malformed) = parse(block, len, fs.geo.inodes());
        expected.extend(items.into_iter().map(Some));
        if malformed {
            expected.push(None);
            ctx.nontrivial();
        }
    }
    let fits = |item: &Item, entry: &Entry| {
        let cut = item.entry.name.split(|b| *b == 0).next().unwrap_or_default();
        item.entry.inode != 0
            && item.entry.inode == entry.inode
            && item.entry.file_type == entry.file_type
            && (item.entry.name == entry.name || item.odd && cut == entry.name)
    };
    let mut real = open_image(image)?;
    let mut dir = open_dir(&mut real, ino)?;
    let mut at = 0;
    let mut errors = 0;
    for _ in 0..expected.len() + 12 {
        ctx.step();
        let next = next_entry(&mut dir);
        if errors > 0 {
            // It is not said where the listing goes on, but all must be real.
            match next {
                Next::Entry(entry) => {
                    let found = expected[at.min(expected.len())..]
                        .iter()
                        .position(|item| item.as_ref().is_some_and(|item| fits(item, &entry)));
                    match found {
                        Some(n) => at += n + 1,
                        None => return Err(format!("after an error there is {entry:?}")),
                    }
                }
                Next::End => return Ok(()),
                Next::Error(_) => {
                    errors += 1;
                    if errors == 6 {
                        return Ok(());
                    }
                }
            }
            continue;
        }
        match next {
            Next::Entry(entry) => loop {
                match expected.get(at) {
                    Some(Some(item)) if fits(item, &entry) => {
                        at += 1;
                        break;
                    }
                    Some(Some(item)) if item.skippable => at += 1,
                    Some(Some(item)) => return Err(format!("entry {at} is {entry:?}, should be {:?}", item.entry)),
                    Some(None) => return Err(format!("{entry:?} instead of an error for a malformed record")),
                    None => return Err(format!("there is no entry {entry:?}")),
                }
            },
            Next::End => {
                return match expected[at..].iter().find(|e| !e.as_ref().is_some_and(|i| i.skippable)) {
                    None => Ok(()),
                    Some(Some(item)) => Err(format!("{:?} is left out", item.entry)),
                    Some(None) => Err("a malformed record is not reported".to_string()),
                };
            }
            Next::Error(e) => loop {
                match expected.get(at) {
                    Some(Some(item)) if item.odd => {
                        // At this one, or at a later one if it may be skipped.
                        errors = 1;
                        at += 1;
                        break;
                    }
                    Some(Some(item)) if item.skippable => at += 1,
                    Some(Some(item)) => return Err(format!("an error instead of {:?}: {e}", item.entry)),
                    Some(None) => {
                        errors = 1;
                        at += 1;
                        break;
                    }
                    None => return Err(format!("an error at the end: {e}")),
                }
            },
        }
    }
    Err("the listing does not end".to_string())
}

// ---------------------------------------------------------------- C16

/// A directory of three blocks; the entries of each.
fn dir16(fs: &mut Fs, ino: u32) -> (RawInode, Vec<u64>, Vec<Vec<Entry>>) {
    let blocks: Vec<Vec<Record>> = (0..3u32)
        .map(|b| {
            vec![
                Record::new(1 + b, format!("first-{b}-of-{ino}").as_bytes(), 1),
                Record::new(0, b"deleted", 1),
                Record::new(5 + b, format!("last-{b}-of-{ino}").as_bytes(), 2),
            ]
        })
        .collect();
    let inode = fs.add_dir(ino, &blocks, true);
    let first = fs.next - 6;
    let entries = blocks.iter().map(|b| entries_of(&[b.clone()])).collect();
    (inode, vec![first, first + 2, first + 4], entries)
}

/// Lists a directory of which one block must be refused: the entries of the
/// blocks before it, an error, and later only entries of other blocks.
fn check_refused(
    ctx: &Ctx,
    image: &Image,
    ino: u32,
    entries: &[Vec<Entry>],
    bad: usize,
) -> Result<(), String> {
    let mut real = open_image(image)?;
    let mut dir = open_dir(&mut real, ino)?;
    for want in entries[..bad].iter().flatten() {
        match next_entry(&mut dir) {
            Next::Entry(entry) if entry == *want => {}
            Next::Entry(entry) => return Err(format!("{entry:?} instead of {want:?}")),
            Next::End => return Err(format!("the directory ends before {want:?}")),
            Next::Error(e) => return Err(format!("an error instead of {want:?}: {e}")),
        }
        ctx.step();
    }
    match next_entry(&mut dir) {
        Next::Error(_) => ctx.step(),
        Next::Entry(entry) => return Err(format!("{entry:?} comes from a damaged block, or after it")),
        Next::End => return Err("the directory ends at a damaged block, without an error".to_string()),
    }
    let mut rest = entries[bad + 1..].iter().flatten();
    for _ in 0..8 {
        match next_entry(&mut dir) {
            Next::Error(_) => {}
            Next::End => break,
            Next::Entry(entry) => {
                if !rest.any(|e| *e == entry) {
                    return Err(format!("{entry:?} is returned after the error"));
                }
            }
        }
        ctx.step();
    }
    Ok(())
}

/// A file with two blocks of extents, of which one is to be damaged; the
/// blocks of each.
struct Noded {
    fs: Fs,
    nodes: Vec<u64>,
    /// The parts of the file each node leads to.
    data: Vec<Vec<u64>>,
}

fn noded(log_bs: u32, csum: Csum, ino: u32, levels: usize) -> Noded {
    let mut fs = Fs::new(geo(log_bs, csum));
    let node = fs.alloc(7);
    let data = fs.alloc(20);
    for block in data..data + 20 {
        fs.write_pattern(block);
    }
    let run = |logical: u32, len: u16, start: u64| Run {
        logical,
        len,
        start,
        unwritten: false,
    };
    let one = Tree::Leaf(vec![run(0, 1, data), run(1, 1, data + 2)]);
    let two = Tree::Leaf(vec![run(2, 2, data + 5), run(4, 1, data + 9)]);
    let mut tree = Tree::Index(vec![(0, node + 1, one), (2, node, two)]);
    let mut nodes = vec![node + 1, node];
    let mut parts = vec![vec![data, data + 2], vec![data + 5, data + 6, data + 9]];
    for level in 0..levels as u64 {
        tree = Tree::Index(vec![(0, node + 2 + level, tree)]);
        nodes.push(node + 2 + level);
        parts.push(vec![]);
    }
    let size = 5 * fs.bs() as u64 - 7;
    fs.add_file(ino, mode::REG | 0o644, size, &tree);
    Noded {
        fs,
        nodes,
        data: parts,
    }
}

/// Reads a file of which a node must be refused.
fn check_node_refused(ctx: &Ctx, noded: &Noded, image: &Image, ino: u32, bad: usize) -> Result<(), String> {
    let bs = noded.fs.bs();
    let mut real = open_image(image)?;
    let mut file = match real.open_file(InodeNumber(ino)) {
        Ok(Ext4File::RegularFile(file)) => file,
        Ok(_) => return Err("not a regular file".to_string()),
        // The damage may be found right away.
        Err(_) => return Ok(()),
    };
    let all: Vec<u64> = noded.data.iter().flatten().copied().collect();
    // Nodes 2 and above lead to both others.
    let readable = match bad {
        1 => noded.data[0].len(),
        _ => 0,
    };
    let mut buf = vec![0; bs];
    let mut at = 0;
    let mut errors = 0;
    for _ in 0..12 {
        ctx.step();
        match file.read_next_block(&mut buf) {
            Ok(0) if errors > 0 => return Ok(()),
            Ok(0) => return Err(format!("the file ends at block {at}, without an error")),
            Ok(n) => {
                let got = &buf[..n];
                let is = |block: u64| pattern_block(block, bs)[..n] == *got;
                if errors == 0 && at < readable {
                    if !is(all[at]) {
                        return Err(format!("block {at} is wrong"));
                    }
                } else if errors == 0 {
                    return Err(format!("block {at} is read through a damaged node"));
                } else {
                    // From an undamaged node.
                    let other = if bad >= 2 { &[][..] } else { &noded.data[1 - bad] };
                    if !other.iter().any(|b| is(*b)) {
                        return Err(format!("{n} bytes are read through a damaged node after the error"));
                    }
                }
                at += 1;
            }
            Err(e) => {
                if errors == 0 && at < readable {
                    return Err(format!("block {at} is an error: {e}"));
                }
                errors += 1;
                if errors == 4 {
                    return Ok(());
                }
            }
        }
    }
    Err("reading does not end".to_string())
}

fn check_node_accepted(ctx: &Ctx, noded: &Noded, image: &Image, ino: u32) -> Result<(), String> {
    let bs = noded.fs.bs();
    let mut real = open_image(image)?;
    let mut file = open_file(&mut real, ino)?;
    let mut buf = vec![0; bs];
    for (i, block) in noded.data.iter().flatten().enumerate() {
        ctx.step();
        match file.read_next_block(&mut buf) {
            Ok(n) if n > 0 && pattern_block(*block, bs)[..n] == buf[..n] => {}
            Ok(n) => return Err(format!("block {i} is wrong ({n} bytes)")),
            Err(e) => return Err(format!("block {i} is an error: {e}")),
        }
    }
    match file.read_next_block(&mut buf) {
        Ok(0) => Ok(()),
        Ok(n) => Err(format!("{n} bytes after the end")),
        Err(e) => Err(format!("an error at the end: {e}")),
    }
}

/// Wrong ways to compute a checksum.
fn wrong_checksum(kind: usize, seed: u32, bytes: &[u8], right: u32) -> u32 {
    match kind {
        0 => 0,
        1 => !0,
        2 => !right,
        3 => right.swap_bytes(),
        // Without a seed, with the usual final inversion, and unrelated.
        4 => crc32c(!0, bytes),
        5 => !crc32c(!0, bytes),
        6 => crc32c(0, bytes),
        7 => crc32c(seed, &bytes[..bytes.len() - 1]),
        8 => right & 0xffff,
        9 => right & 0xffff_0000,
        _ => right.rotate_left(1),
    }
}

fn run_c16(e: &mut Explorer) {
    let thorough = e.thorough;

    let csums = [Csum::Uuid, Csum::Seed(0xc0ff_ee11)];
    // Every bit.
    e.family("dir-bits", &|ctx: &Ctx| {
        let csum = *ctx.pick(&csums);
        let log_bs = if thorough { ctx.choose(3) as u32 } else { 0 };
        let bad = ctx.choose(3);
        let bs = 1024usize << log_bs;
        let byte = ctx.choose(bs);
        let mask = 1u8 << ctx.choose(8);
        let mut fs = Fs::new(geo(log_bs, csum));
        let (_, blocks, entries) = dir16(&mut fs, 2);
        fs.image.xor(blocks[bad] * bs as u64 + byte as u64, mask);
        ctx.obs(&(csum, log_bs, bad, byte, mask));
        ctx.note(|| format!("byte {byte} of block {bad} is changed by {mask:#x}"));
        ctx.nontrivial();
        check_refused(ctx, &fs.image, 2, &entries, bad)
    });

    // Every other value of every byte.
    e.family("dir-bytes", &|ctx: &Ctx| {
        let byte = if thorough {
            ctx.choose(1024)
        } else {
            // The headers, the first name and the tail.
            match ctx.choose(60) {
                n @ 0..=39 => n,
                n => 1024 - 60 + n,
            }
        };
        let mask = ctx.range(1, 255) as u8;
        let mut fs = Fs::new(geo(0, Csum::Uuid));
        let (_, blocks, entries) = dir16(&mut fs, 2);
        fs.image.xor(blocks[1] * 1024 + byte as u64, mask);
        ctx.obs(&(byte, mask));
        ctx.note(|| format!("byte {byte} is changed by {mask:#x}"));
        ctx.nontrivial();
        check_refused(ctx, &fs.image, 2, &entries, 1)
    });

    if thorough {
        // Every two bits of which one is in the first 64 bytes.
        e.family("dir-two-bits", &|ctx: &Ctx| {
            let one = ctx.choose(64 * 8);
            let two = one + 1 + ctx.choose(1024 * 8 - one - 1);
            let mut fs = Fs::new(geo(0, Csum::Uuid));
            let (_, blocks, entries) = dir16(&mut fs, 2);
            for bit in [one, two] {
                fs.image.xor(blocks[0] * 1024 + bit as u64 / 8, 1 << (bit % 8));
            }
            ctx.obs(&(one, two));
            ctx.note(|| format!("bits {one} and {two} are changed"));
            ctx.nontrivial();
            check_refused(ctx, &fs.image, 2, &entries, 0)
        });
    }

    e.family("node-bits", &|ctx: &Ctx| {
        let csum = *ctx.pick(&csums);
        let log_bs = if thorough { ctx.choose(3) as u32 } else { ctx.choose(2) as u32 };
        let deep = *ctx.pick(if thorough { &[0, 1, 2, 3, 4][..] } else { &[0, 1, 4][..] });
        let noded = noded(log_bs, csum, 12, deep);
        let bad = ctx.choose(noded.nodes.len());
        let bs = 1024usize << log_bs;
        let covered = 12 + 12 * usize::from(noded.fs.node_max()) + 4;
        let byte = ctx.choose(bs);
        let mask = 1u8 << ctx.choose(8);
        let mut image = noded.fs.image.clone();
        image.xor(noded.nodes[bad] * bs as u64 + byte as u64, mask);
        ctx.obs(&(csum, log_bs, deep, bad, byte, mask));
        ctx.note(|| format!("{deep} index blocks, byte {byte} of node {bad} is changed by {mask:#x}"));
        if byte >= covered {
            // Behind the checksum.
            return check_node_accepted(ctx, &noded, &image, 12);
        }
        ctx.nontrivial();
        check_node_refused(ctx, &noded, &image, 12, bad)
    });

    e.family("node-bytes", &|ctx: &Ctx| {
        let byte = if thorough {
            ctx.choose(1024)
        } else {
            match ctx.choose(48 + 16) {
                n @ 0..=47 => n,
                n => 1024 - 64 + n,
            }
        };
        let mask = ctx.range(1, 255) as u8;
        let bad = ctx.choose(2);
        let noded = noded(0, Csum::Uuid, 12, 0);
        let mut image = noded.fs.image.clone();
        image.xor(noded.nodes[bad] * 1024 + byte as u64, mask);
        ctx.obs(&(byte, mask, bad));
        ctx.note(|| format!("byte {byte} of node {bad} is changed by {mask:#x}"));
        ctx.nontrivial();
        check_node_refused(ctx, &noded, &image, 12, bad)
    });

    // Checksums made for other inodes, generations and filesystems.
    e.family("wrong-seeds", &|ctx: &Ctx| {
        let csum = *ctx.pick(&csums);
        let dir = ctx.flag();
        let kind = ctx.choose(4);
        let bit = ctx.choose(if kind == 2 { 128 } else { 32 });
        let noded = noded(0, csum, 12, 0);
        let mut fs = noded.fs.clone();
        let (dir_inode, blocks, entries) = dir16(&mut fs, 2);
        let ino = if dir { 2u32 } else { 12 };
        let mut generation = dir_inode.generation();
        let mut sealed_ino = ino;
        let mut other = fs.geo.clone();
        let mut other_seed = other.seed().unwrap();
        match kind {
            0 => sealed_ino ^= 1 << bit,
            1 => generation ^= 1 << bit,
            2 => {
                other.uuid[bit / 8] ^= 1 << (bit % 8);
                if csum != Csum::Uuid {
                    // Of no importance: the seed comes from the superblock.
                    put(&mut fs.sb, 0x68 + bit / 8, 1, other.uuid[bit / 8].into());
                    fs.write_superblock();
                }
                other_seed = other.seed().unwrap();
            }
            _ => other_seed ^= 1 << bit,
        }
        let seed = crc32c(crc32c(other_seed, &sealed_ino.to_le_bytes()), &generation.to_le_bytes());
        let right = kind == 2 && csum != Csum::Uuid;
        ctx.obs(&(csum, dir, kind, bit));
        ctx.note(|| format!("{csum:?}, directory {dir}, wrong {kind} (inode, generation, UUID, seed), bit {bit}"));
        if !right {
            ctx.nontrivial();
        }
        if dir {
            let mut bytes = fs.image.bytes(blocks[1] * 1024, 1024);
            let crc = crc32c(seed, &bytes[..1012]);
            put(&mut bytes, 1020, 4, crc.into());
            fs.write_block(blocks[1], &bytes);
            if right {
                let mut real = open_image(&fs.image)?;
                let mut dir = open_dir(&mut real, 2)?;
                check_listing(ctx, &mut dir, &entries.concat())
            } else {
                check_refused(ctx, &fs.image, 2, &entries, 1)
            }
        } else {
            let mut bytes = fs.image.bytes(noded.nodes[1] * 1024, 1024);
            let crc = crc32c(seed, &bytes[..1020]);
            put(&mut bytes, 1020, 4, crc.into());
            fs.write_block(noded.nodes[1], &bytes);
            if right {
                check_node_accepted(ctx, &noded, &fs.image, 12)
            } else {
                check_node_refused(ctx, &noded, &fs.image, 12, 1)
            }
        }
    });

    e.family("wrong-checksums", &|ctx: &Ctx| {
        let csum = *ctx.pick(&csums);
        let dir = ctx.flag();
        let kind = ctx.choose(11);
        let noded = noded(0, csum, 12, 0);
        let mut fs = noded.fs.clone();
        let (inode, blocks, entries) = dir16(&mut fs, 2);
        ctx.obs(&(csum, dir, kind));
        ctx.note(|| format!("directory {dir}, wrong checksum {kind}"));
        ctx.nontrivial();
        let (ino, block, covered) = if dir { (2, blocks[1], 1012) } else { (12, noded.nodes[1], 1020) };
        let seed = fs.inode_seed(ino, inode.generation()).unwrap();
        let mut bytes = fs.image.bytes(block * 1024, 1024);
        let right = crc32c(seed, &bytes[..covered]);
        let wrong = wrong_checksum(kind, seed, &bytes[..covered], right);
        assert!(wrong != right, "harness: the wrong checksum is right");
        put(&mut bytes, 1020, 4, wrong.into());
        fs.write_block(block, &bytes);
        if dir {
            check_refused(ctx, &fs.image, 2, &entries, 1)
        } else {
            check_node_refused(ctx, &noded, &fs.image, 12, 1)
        }
    });

    // Sound blocks are accepted, whatever the seed depends on.
    e.family("accepted", &|ctx: &Ctx| {
        let kind = ctx.choose(8);
        let bit = ctx.choose(if kind == 2 { 128 } else { 32 });
        let (mut csum, mut ino, mut generation) = (*ctx.pick(&csums), 12u32, 0x1234_5678u32);
        let mut geometry = geo(0, csum);
        // Values that code might take for something else.
        let special = || match bit {
            0 => 0,
            1 => u32::MAX,
            2 => 12,
            3 => 12u32.swap_bytes(),
            4 => 0x8000_0000,
            5 => 0xffff_0000,
            6 => 0xffff,
            b => b as u32,
        };
        match kind {
            5 => generation = special(),
            6 => {
                csum = Csum::Seed(special());
                geometry.csum = csum;
            }
            7 => geometry.uuid = [special() as u8; 16],
            0 => ino = 1 + bit as u32,
            1 => generation = 1 << bit,
            2 => geometry.uuid[bit / 8] ^= 1 << (bit % 8),
            3 => {
                csum = Csum::Seed(1 << bit);
                geometry.csum = csum;
            }
            // The numbers of inodes of large groups, with all their bits.
            _ => {
                if bit >= 12 {
                    return Ok(());
                }
                geometry.inodes_per_group = 8192;
                geometry.blocks = 4096;
                ino = (1 << bit) + 12;
            }
        }
        if ino > 16 {
            geometry.inodes_per_group = geometry.inodes_per_group.max(64);
        }
        ctx.obs(&(kind, bit, csum));
        ctx.note(|| format!("kind {kind}, bit {bit}, {csum:?}"));
        ctx.nontrivial();
        let mut fs = Fs::new(geometry);
        // Inode 2 must have a sound tree, being the root.
        fs.write_inode(2, &RawInode::new(256, mode::DIR | 0o755, 0));
        let records = vec![Record::new(5, b"five", 1), Record::new(6, b"six", 2)];
        let node_at = fs.alloc(1);
        let dir_at = fs.alloc(1);
        let mut inode = RawInode::new(256, mode::DIR | 0o755, 1024);
        inode.set(0x64, 4, generation.into());
        let tree = Tree::Index(vec![(
            0,
            node_at,
            Tree::Leaf(vec![Run {
                logical: 0,
                len: 1,
                start: dir_at,
                unwritten: false,
            }]),
        )]);
        let root = fs.write_tree(ino, generation, &tree);
        let bytes = fs.dir_block(ino, generation, &records);
        fs.write_block(dir_at, &bytes);
        inode.set_root(&root);
        fs.write_inode(ino, &inode);
        let mut real = open_image(&fs.image)?;
        let mut dir = open_dir(&mut real, ino)?;
        check_listing(ctx, &mut dir, &entries_of(&[records]))
    });

    // Any inode number.
    e.family("inode-numbers", &|ctx: &Ctx| {
        let csum = *ctx.pick(&csums);
        let bit = ctx.choose(33);
        let low = *ctx.pick(&[1u32, 12, 0x1f_ffff]);
        let ino = if bit == 32 { 0xffef_fff0 } else { (1u32 << bit).saturating_add(low) };
        let inodes_per_group = 1 << 20;
        let group = (ino - 1) / inodes_per_group;
        let geometry = Geo {
            inodes_per_group,
            blocks: 4095 * 524_288,
            ..geo(6, csum)
        };
        if ino > geometry.inodes() || ino == 2 {
            return Ok(());
        }
        let wrong = ctx.choose(33);
        let table = 1 << 20;
        let mut fs = Fs::with_tables(geometry, BTreeMap::from([(0, 1 << 18), (group, table)]), 2 << 20);
        let sealed = if wrong == 32 { ino } else { ino ^ 1 << wrong };
        let records = vec![Record::new(5, b"five", 1), Record::new(6, b"six", 2)];
        let node_at = fs.alloc(1);
        let dir_at = fs.alloc(1);
        let of_node = ctx.flag();
        let tree = Tree::Index(vec![(
            0,
            node_at,
            Tree::Leaf(vec![Run {
                logical: 0,
                len: 1,
                start: dir_at,
                unwritten: false,
            }]),
        )]);
        let mut inode = RawInode::new(256, mode::DIR | 0o755, 65_536);
        let generation = inode.generation();
        let root = fs.write_tree(if of_node { sealed } else { ino }, generation, &tree);
        let bytes = fs.dir_block(if of_node { ino } else { sealed }, generation, &records);
        fs.write_block(dir_at, &bytes);
        inode.set_root(&root);
        fs.write_inode(ino, &inode);
        ctx.obs(&(csum, ino, wrong, of_node));
        ctx.note(|| format!("inode {ino:#x}, sealed for {sealed:#x} (the node: {of_node})"));
        ctx.nontrivial();
        let mut real = open_image(&fs.image)?;
        let mut dir = open_dir(&mut real, ino)?;
        if sealed == ino {
            return check_listing(ctx, &mut dir, &entries_of(&[records]));
        }
        match dir.read_next_entry() {
            Ok(_) => Err("a block with the checksum of another inode's was accepted".to_string()),
            Err(_) => Ok(()),
        }
    });

    // Any byte of large blocks.
    e.family("large-blocks", &|ctx: &Ctx| {
        let log_bs = ctx.range(1, 6) as u32;
        let bs = 1024usize << log_bs;
        let stride = if thorough { 1 } else { bs.div_ceil(4096) | 1 };
        let many = bs / stride;
        let byte = match ctx.choose(many + 32) {
            n if n < many => n * stride,
            n => bs - 1 - (n - many),
        };
        let mask = 1u8 << (byte % 8);
        let csum = csums[0];
        ctx.obs(&(log_bs, byte, mask));
        if ctx.flag() {
            let mut fs = Fs::new(geo(log_bs, csum));
            let (_, blocks, entries) = dir16(&mut fs, 2);
            fs.image.xor(blocks[1] * bs as u64 + byte as u64, mask);
            ctx.note(|| format!("byte {byte} of a block of {bs} is changed by {mask:#x}"));
            ctx.nontrivial();
            check_refused(ctx, &fs.image, 2, &entries, 1)
        } else {
            let noded = noded(log_bs, csum, 12, 0);
            let covered = 12 + 12 * usize::from(noded.fs.node_max()) + 4;
            let mut image = noded.fs.image.clone();
            image.xor(noded.nodes[1] * bs as u64 + byte as u64, mask);
            ctx.note(|| format!("byte {byte} of a node of {bs} is changed by {mask:#x}"));
            if byte >= covered {
                return check_node_accepted(ctx, &noded, &image, 12);
            }
            ctx.nontrivial();
            check_node_refused(ctx, &noded, &image, 12, 1)
        }
    });

    // Blocks of other inodes in the place of one's own.
    e.family("transplants", &|ctx: &Ctx| {
        let csum = *ctx.pick(&csums);
        let same_names = ctx.flag();
        let bad = ctx.choose(3);
        let from = ctx.choose(5);
        let mut fs = Fs::new(geo(0, csum));
        let (_, blocks, entries) = dir16(&mut fs, 2);
        let donor = 13;
        let (_, others, _) = dir16(&mut fs, donor);
        if same_names {
            // The very same entries, but sealed for the other inode.
            for (from, to) in blocks.iter().zip(&others) {
                let mut bytes = fs.image.bytes(from * 1024, 1024);
                fs.seal_dir(donor, 0x1234_5678, &mut bytes);
                fs.write_block(*to, &bytes);
            }
        }
        let bytes = match from {
            0..=2 => fs.image.bytes(others[from] * 1024, 1024),
            3 => vec![0; 1024],
            _ => vec![0xff; 1024],
        };
        fs.write_block(blocks[bad], &bytes);
        ctx.obs(&(csum, same_names, bad, from));
        ctx.note(|| format!("block {bad} is block {from} of another directory, same names {same_names}"));
        ctx.nontrivial();
        check_refused(ctx, &fs.image, 2, &entries, bad)
    });

    // Without metadata checksums nothing is a checksum.
    e.family("no-checksums", &|ctx: &Ctx| {
        let dir = ctx.flag();
        let gdt_csum = ctx.flag();
        let seed_feature = ctx.flag();
        let seed_value = ctx.flag();
        let tail = ctx.choose(6);
        let noded = noded(0, Csum::None, 12, 0);
        let mut fs = noded.fs.clone();
        let (_, blocks, entries) = dir16(&mut fs, 2);
        if gdt_csum {
            let ro = get(&fs.sb, 0x64, 4) | 0x10;
            put(&mut fs.sb, 0x64, 4, ro);
        }
        if seed_feature {
            let incompat = get(&fs.sb, 0x60, 4) | u64::from(feature::INCOMPAT_CSUM_SEED);
            put(&mut fs.sb, 0x60, 4, incompat);
        }
        if seed_value {
            put(&mut fs.sb, 0x270, 4, 0x5555_aaaa);
        }
        fs.write_superblock();
        let block = if dir { blocks[1] } else { noded.nodes[1] };
        let mut bytes = fs.image.bytes(block * 1024, 1024);
        match tail {
            0 => {}
            1 => bytes[1012..].fill(0xff),
            2 => bytes[1020..].fill(0xa5),
            // What looks like a tail, with a wrong checksum.
            3 => {
                put(&mut bytes, 1012, 4, 0);
                put(&mut bytes, 1016, 4, 0xde00_000c);
                put(&mut bytes, 1020, 4, 0x1234);
            }
            4 => bytes[1012..].fill(b'x'),
            _ => put(&mut bytes, 1019, 1, 0xde),
        }
        fs.write_block(block, &bytes);
        ctx.obs(&(dir, gdt_csum, seed_feature, seed_value, tail));
        ctx.note(|| format!("directory {dir}, tail {tail}"));
        ctx.nontrivial();
        if dir {
            let mut real = open_image(&fs.image)?;
            let mut dir = open_dir(&mut real, 2)?;
            check_listing(ctx, &mut dir, &entries.concat())
        } else {
            check_node_accepted(ctx, &noded, &fs.image, 12)
        }
    });

    // Where the seed comes from.
    e.family("seed-source", &|ctx: &Ctx| {
        let dir = ctx.flag();
        let feature_on = ctx.flag();
        let by_uuid = ctx.flag();
        let seed = *ctx.pick(&[0u32, 1, 0xffff_ffff, 0x8000_0000, 0x1357_9bdf]);
        // Sealed as if the seed came from the UUID or from the superblock.
        let csum = if by_uuid { Csum::Uuid } else { Csum::Seed(seed) };
        let noded = noded(0, csum, 12, 0);
        let mut fs = noded.fs.clone();
        let (_, blocks, entries) = dir16(&mut fs, 2);
        let _ = blocks;
        let mut incompat = get(&fs.sb, 0x60, 4) & !u64::from(feature::INCOMPAT_CSUM_SEED);
        if feature_on {
            incompat |= u64::from(feature::INCOMPAT_CSUM_SEED);
        }
        put(&mut fs.sb, 0x60, 4, incompat);
        put(&mut fs.sb, 0x270, 4, seed.into());
        fs.write_superblock();
        let right = feature_on != by_uuid;
        ctx.obs(&(dir, feature_on, by_uuid, seed));
        ctx.note(|| format!("directory {dir}, seed feature {feature_on}, sealed by UUID {by_uuid}, {seed:#x}"));
        ctx.nontrivial();
        match (dir, right) {
            (true, true) => {
                let mut real = open_image(&fs.image)?;
                let mut dir = open_dir(&mut real, 2)?;
                check_listing(ctx, &mut dir, &entries.concat())
            }
            (true, false) => check_refused(ctx, &fs.image, 2, &entries, 0),
            (false, true) => check_node_accepted(ctx, &noded, &fs.image, 12),
            (false, false) => check_node_refused(ctx, &noded, &fs.image, 12, 0),
        }
    });
}
