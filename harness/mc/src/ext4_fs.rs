//! C12, C13, C14: inode lookup, regular files, malformed extent trees.

use crate::explore::{Ctx, Explorer};
use crate::ext4ref::{
    empty_root, get, mode, pattern, put, put_header, Csum, Fs, Geo, Sparse, RawInode, Run, Tree,
};
use crate::simdev::{Image, SimDev};
use crate::{Check, Level};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Seek};
use sut::verif::ext4::{Ext4File, Ext4Fs, Ext4RegularFile, InodeNumber};
use sut::verif::BlockDevice;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C12",
            level: Level::Exploration,
            rule: "filesystems of every enumerated geometry, each inode carrying its number, are \
                   opened by the real code and every inode number looked up; non-trivial if the \
                   filesystem has more than one group or the inode is not in the first slot",
            assumptions: &[
                "filesystems whose superblock gives no group descriptor size are refused by the \
                 program as unsupported and not judged",
            ],
            note: "All combinations of block size, inode size, inodes per group, descriptor size, \
                   number of groups, first data block and order of the inode tables in the bounds; \
                   every bit of 46-bit table positions; all inode numbers in and out of range.",
            run: run_c12,
        },
        Check {
            id: "C13",
            level: Level::Exploration,
            rule: "files of every extent tree shape in the bounds, written by an independent ext4 \
                   writer, are read to the end by the real code and compared; non-trivial if the \
                   file has more than one extent or its size is no whole number of blocks",
            assumptions: &["a read error in place of a hole is allowed"],
            note: "All trees to depth 5 that deviate in at most 4 (thorough: 6) places from the \
                   plainest one; full nodes for every block size; the longest extents; every file \
                   size to three blocks; sizes beyond 4 GiB; every bit of 46-bit block numbers; \
                   holes in every place of a small file.",
            run: run_c13,
        },
        Check {
            id: "C14",
            level: Level::Exploration,
            rule: "every byte of the nodes of small extent trees is set to every value, and their \
                   fields to sets of special values, in pairs; non-trivial if the result is \
                   malformed by the reference interpretation",
            assumptions: &[
                "blocks mapped twice may be read from either place, and entries before a bad entry \
                 of a node may be used or not",
            ],
            note: "All single-byte changes of all nodes of four base trees (checksums recomputed), \
                   all pairs of special field values, cycles and shared nodes, each read to its end.",
            run: run_c14,
        },
    ]
}

pub type Real = Ext4Fs<SimDev>;

pub fn open_image(image: &Image) -> Result<Real, String> {
    Ext4Fs::open(SimDev::new(image.clone(), 512)).map_err(|e| format!("the filesystem does not open: {e}"))
}

pub fn open_file<D: BlockDevice + Read + Seek>(
    fs: &mut Ext4Fs<D>,
    ino: u32,
) -> Result<Ext4RegularFile<D>, String> {
    match fs.open_file(InodeNumber(ino)) {
        Ok(Ext4File::RegularFile(file)) => Ok(file),
        Ok(_) => Err(format!("inode {ino} is not a regular file")),
        Err(e) => Err(format!("inode {ino} does not open: {e}")),
    }
}

// ---------------------------------------------------------------- C12

/// The size that identifies the inode.
fn id_size(ino: u32) -> u64 {
    0x5_0000_0000 + u64::from(ino) * 3
}

/// Fields (offset, width) of inodes that do not tell which inode it is, nor
/// where its data is.
const OTHER_FIELDS: [(usize, usize); 26] = [
    (0x02, 2),
    (0x08, 4),
    (0x0c, 4),
    (0x10, 4),
    (0x14, 4),
    (0x18, 2),
    (0x1a, 2),
    (0x1c, 4),
    (0x24, 4),
    (0x64, 4),
    (0x68, 4),
    (0x70, 4),
    (0x74, 2),
    (0x76, 2),
    (0x78, 2),
    (0x7a, 2),
    (0x7e, 2),
    (0x84, 4),
    (0x88, 4),
    (0x8c, 4),
    (0x90, 4),
    (0x94, 4),
    (0x98, 4),
    (0x9c, 4),
    (0xa0, 8),
    (0xf8, 8),
];

/// Flags of inodes that change nothing for those who read.
const OTHER_FLAGS: [u32; 17] = [
    0x1,
    0x2,
    0x8,
    0x10,
    0x20,
    0x40,
    0x80,
    0x100,
    0x400,
    0x4000,
    0x8000,
    0x10000,
    0x20000,
    0x40000,
    0x40_0000,
    0x200_0000,
    0x2000_0000,
];

fn write_ids(fs: &mut Fs, inodes: impl Iterator<Item = u32>) {
    for ino in inodes {
        let mut inode = RawInode::new(fs.geo.inode_size, mode::REG | 0o644, id_size(ino));
        inode.set(0x64, 4, u64::from(ino) ^ 0xabcd);
        fs.write_inode(ino, &inode);
    }
}

fn check_id(real: &mut Real, ino: u32) -> Result<(), String> {
    let file = open_file(real, ino)?;
    if file.file_size_bytes() != id_size(ino) {
        return Err(format!(
            "inode {ino} leads to a file of {:#x} bytes, not {:#x}",
            file.file_size_bytes(),
            id_size(ino)
        ));
    }
    Ok(())
}

fn check_absent(real: &mut Real, ino: u32) -> Result<(), String> {
    match real.open_file(InodeNumber(ino)) {
        Ok(_) => Err(format!("inode {ino}, which does not exist, was opened")),
        Err(_) => Ok(()),
    }
}

fn check_all_ids(ctx: &Ctx, fs: &Fs) -> Result<(), String> {
    let mut real = open_image(&fs.image)?;
    let inodes = fs.geo.inodes();
    for ino in 1..=inodes {
        check_id(&mut real, ino)?;
        ctx.step();
    }
    for ino in [0, inodes + 1, inodes + 2, inodes + fs.geo.inodes_per_group, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
        check_absent(&mut real, ino)?;
        ctx.step();
    }
    let root = real.read_root_inode().map_err(|e| format!("root inode: {e}"))?;
    if root.generation() != 2 ^ 0xabcd {
        return Err("the root inode is not inode 2".to_string());
    }
    Ok(())
}

fn run_c12(e: &mut Explorer) {
    let thorough = e.thorough;
    e.family("geometries", &|ctx: &Ctx| {
        let log_bs = ctx.choose(7) as u32;
        let bs = 1024usize << log_bs;
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let inode_size = 128usize << ctx.choose(9);
        if inode_size > bs || (!thorough && inode_size > 1024 && inode_size != bs.min(32768)) {
            return Ok(());
        }
        let inodes_per_group = *ctx.pick(if thorough {
            &[8, 16, 24, 40, 104][..]
        } else {
            &[8, 24][..]
        });
        let desc_size = *ctx.pick(&[32, 64, 128, 1024]);
        let groups = *ctx.pick(if thorough { &[1, 2, 3, 8, 33][..] } else { &[1, 2, 17][..] });
        let placement = ctx.choose(3);
        let blocks_per_group = 8 * bs as u32;
        // As mke2fs does, whose clusters are larger than blocks if at all.
        let log_cluster = *ctx.pick(&[0u32, 4]);
        let first_data_block = u32::from(log_bs + log_cluster == 0);
        let geo = Geo {
            log_bs,
            blocks_per_group,
            inodes_per_group,
            inode_size: inode_size as u16,
            desc_size,
            first_data_block,
            blocks: u64::from(first_data_block) + u64::from(groups - 1) * u64::from(blocks_per_group)
                + if groups == 1 { 2000 } else { 77 },
            csum,
            log_cluster,
            ..Geo::small(log_bs, csum)
        };
        // One after the other, in reverse order, or each in its own group.
        let gdt_end = geo.descriptors_block()
            + (u64::from(groups) * u64::from(desc_size)).div_ceil(bs as u64);
        let per_table = geo.table_blocks();
        let mut tables = BTreeMap::new();
        for group in 0..groups {
            let block = match placement {
                0 => gdt_end + u64::from(group) * per_table,
                1 => gdt_end + u64::from(groups - 1 - group) * (per_table + 1),
                _ => {
                    u64::from(group) * u64::from(blocks_per_group)
                        + if group == 0 { gdt_end + 5 } else { 21 }
                }
            };
            tables.insert(group, block);
        }
        if tables.values().any(|t| t + per_table > geo.blocks) {
            return Ok(());
        }
        ctx.obs(&geo);
        ctx.obs(&placement);
        ctx.note(|| format!("{geo:?}, tables {tables:?}"));
        ctx.nontrivial();
        let mut fs = Fs::with_tables(geo, tables, 0);
        let inodes = fs.geo.inodes();
        write_ids(&mut fs, 1..=inodes);
        check_all_ids(ctx, &fs)
    });

    // Inode tables at block numbers that need up to 46 bits.
    e.family("far-tables", &|ctx: &Ctx| {
        let log_bs = *ctx.pick(&[0u32, 2, 6]);
        let bit = ctx.range(8, 45);
        let csum = *ctx.pick(&[Csum::None, Csum::Seed(0xfeed)]);
        let which = ctx.choose(2) as u32;
        let table = (1u64 << bit) + 3;
        let geo = Geo {
            // A group may be large if clusters are.
            log_cluster: 19 - log_bs,
            first_data_block: 0,
            blocks_per_group: 1 << 31,
            inodes_per_group: 8,
            desc_size: 64,
            blocks: (table + 100).max(1 << 32),
            ..Geo::small(log_bs, csum)
        };
        let mut tables = BTreeMap::new();
        tables.insert(which, table);
        tables.insert(1 - which, geo.descriptors_block() + 1 + u64::from(geo.groups()) * 64 / geo.bs() as u64);
        if tables[&0].abs_diff(tables[&1]) < 8 {
            return Ok(());
        }
        ctx.obs(&(log_bs, bit, which));
        ctx.note(|| format!("{geo:?}, tables {tables:?}"));
        ctx.nontrivial();
        let mut fs = Fs::with_tables(geo, tables, 0);
        write_ids(&mut fs, 1..=16);
        let mut real = open_image(&fs.image)?;
        for ino in 1..=16 {
            check_id(&mut real, ino)?;
            ctx.step();
        }
        check_absent(&mut real, 0)?;
        check_absent(&mut real, fs.geo.inodes() + 1)
    });

    // Products of slot and inode size beyond 32 bits.
    e.family("large-tables", &|ctx: &Ctx| {
        let log_bs = ctx.choose(7) as u32;
        let bs = 1024u32 << log_bs;
        let inode_size = *ctx.pick(&[128u32, 256, 1024, 4096, 32768]);
        if inode_size > bs {
            return Ok(());
        }
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let inodes_per_group = 8 * bs;
        let geo = Geo {
            log_cluster: 19 - log_bs,
            first_data_block: 0,
            blocks_per_group: 1 << 31,
            inodes_per_group,
            inode_size: inode_size as u16,
            blocks: 3 << 31,
            ..Geo::small(log_bs, csum)
        };
        let tables = BTreeMap::from([(0, 40), (1, 0x9000_0000), (2, 0x5000_0000)]);
        let mut fs = Fs::with_tables(geo, tables, 0);
        let inodes = fs.geo.inodes();
        let mut numbers: Vec<u32> = Vec::new();
        for group in 0..3 {
            for slot in [0, 1, 2, 7, 8, 511, 4095, inodes_per_group / 2, inodes_per_group - 2, inodes_per_group - 1] {
                numbers.push(group * inodes_per_group + slot + 1);
            }
        }
        numbers.sort();
        numbers.dedup();
        ctx.obs(&(log_bs, inode_size, csum));
        ctx.note(|| format!("{:?}", fs.geo));
        ctx.nontrivial();
        write_ids(&mut fs, numbers.iter().copied());
        let mut real = open_image(&fs.image)?;
        for ino in numbers {
            check_id(&mut real, ino)?;
            ctx.step();
        }
        check_absent(&mut real, 0)?;
        check_absent(&mut real, inodes + 1)?;
        check_absent(&mut real, u32::MAX)
    });

    // Blocks of descriptors in meta block groups.
    e.family("meta-groups", &|ctx: &Ctx| {
        let log_bs = ctx.choose(if thorough { 4 } else { 3 }) as u32;
        let desc_size = *ctx.pick(&[32, 64, 512, 1024]);
        let bs = 1024u32 << log_bs;
        let per_block = bs / u32::from(desc_size);
        let log_cluster = *ctx.pick(&[0u32, 3]);
        let first_data_block = u32::from(log_bs + log_cluster == 0);
        let blocks = if thorough { 160 } else { 28 }.max(400 / per_block).min(2500 / per_block);
        let groups = match ctx.choose(4) {
            0 => 3 * per_block,
            1 => blocks * per_block - 1,
            2 => blocks * per_block + 1,
            _ => per_block + 1,
        };
        let sparse = match ctx.choose(5) {
            0 => Sparse::All,
            1 => Sparse::Powers,
            2 => Sparse::Two([1, groups - 1]),
            3 => Sparse::Two([0, 0]),
            _ => Sparse::Two([2 * per_block, per_block]),
        };
        let meta_bg = *ctx.pick(&[Some(0), Some(1), Some(2), Some(5), Some(1000), None]);
        let blocks_per_group = 8 * bs;
        let geo = Geo {
            log_bs,
            blocks_per_group,
            inodes_per_group: 8,
            inode_size: 128,
            desc_size,
            first_data_block,
            blocks: u64::from(first_data_block) + u64::from(groups) * u64::from(blocks_per_group)
                - if ctx.flag() { 100 } else { 0 },
            log_cluster,
            meta_bg,
            sparse,
            ..Geo::small(log_bs, Csum::Uuid)
        };
        let after = geo.descriptors_block() + u64::from(groups.div_ceil(per_block));
        let tables = (0..groups)
            .map(|group| (group, after + u64::from(group) * (u64::from(blocks_per_group) + 1)))
            .filter(|(_, block)| block + 1 < geo.blocks)
            .collect::<BTreeMap<_, _>>();
        // The last tables would be beyond the end.
        let numbers: Vec<u32> = tables.keys().flat_map(|group| [8 * group + 1, 8 * group + 8]).collect();
        let mut fs = Fs::with_tables(geo, tables, 0);
        ctx.obs(&fs.geo);
        ctx.note(|| format!("{:?}", fs.geo));
        ctx.nontrivial();
        write_ids(&mut fs, numbers.iter().copied());
        let mut real = open_image(&fs.image)?;
        for ino in numbers {
            check_id(&mut real, ino)?;
            ctx.step();
        }
        check_absent(&mut real, fs.geo.inodes() + 1)
    });

    // Far more groups, of which those are tried that are, or nearly are, powers.
    e.family("many-meta-groups", &|ctx: &Ctx| {
        let log_bs = ctx.choose(2) as u32;
        let bs = 1024u32 << log_bs;
        let desc_size = if ctx.flag() { 1024 } else { 512 };
        let per_block = bs / u32::from(desc_size);
        let groups = *ctx.pick(if thorough { &[20_000u32, 60_000, 120_000] } else { &[20_000u32] });
        let sparse = match ctx.choose(3) {
            0 => Sparse::All,
            1 => Sparse::Powers,
            _ => Sparse::Two([6561, 15_625 / per_block * per_block]),
        };
        let meta_bg = *ctx.pick(&[Some(0), Some(700)]);
        let blocks_per_group = 8 * bs;
        let first_data_block = u32::from(log_bs == 0);
        let geo = Geo {
            log_bs,
            blocks_per_group,
            inodes_per_group: 8,
            inode_size: 128,
            desc_size,
            first_data_block,
            blocks: u64::from(first_data_block) + u64::from(groups) * u64::from(blocks_per_group),
            meta_bg,
            sparse,
            ..Geo::small(log_bs, Csum::Uuid)
        };
        let mut wanted = BTreeSet::from([0, 1, groups - 1]);
        for base in 2..=50u32 {
            let mut power = base;
            while power < groups {
                // Its block of descriptors, and the neighbours.
                let first = power / per_block * per_block;
                wanted.extend([first - 1.min(first), first, power - 1, power, power + 1, first + per_block]);
                power *= base;
            }
        }
        wanted.retain(|group| *group < groups);
        let after = geo.descriptors_block() + u64::from(groups.div_ceil(per_block));
        let tables = wanted
            .iter()
            .map(|group| (*group, after + u64::from(*group) * (u64::from(blocks_per_group) + 1)))
            .filter(|(_, block)| block + 1 < geo.blocks)
            .collect::<BTreeMap<_, _>>();
        let numbers: Vec<u32> = tables.keys().flat_map(|group| [8 * group + 1, 8 * group + 8]).collect();
        let mut fs = Fs::with_tables(geo, tables, 0);
        ctx.obs(&fs.geo);
        ctx.note(|| format!("{:?}", fs.geo));
        ctx.nontrivial();
        write_ids(&mut fs, numbers.iter().copied());
        let mut real = open_image(&fs.image)?;
        for ino in numbers {
            check_id(&mut real, ino)?;
            ctx.step();
        }
        check_absent(&mut real, fs.geo.inodes() + 1)
    });

    // What a superblock says about the size of descriptors.
    e.family("descriptor-sizes", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let wide = ctx.flag();
        // A filesystem that is not 64-bit has descriptors of 32 bytes.
        let claimed = if wide {
            ctx.choose(if thorough { 65_536 } else { 4200 }) as u16
        } else {
            *ctx.pick(&[0u16, 1, 31, 32, 33, 64, 128, 1024, 0x8000, 0xffff])
        };
        let sound = claimed.is_power_of_two() && (64..=1024).contains(&claimed);
        if wide && claimed == 32 {
            // Linux refuses these.
            return Ok(());
        }
        let mut fs = Fs::new(Geo {
            inodes_per_group: 8,
            blocks: 1 + 20 * 8192,
            desc_size: if !wide { 32 } else if sound { claimed } else { 64 },
            ..Geo::small(0, csum)
        });
        put(&mut fs.sb, 0xfe, 2, claimed.into());
        fs.write_superblock();
        ctx.obs(&(csum, wide, claimed));
        ctx.note(|| format!("descriptors of {claimed} bytes, 64 bit: {wide}"));
        ctx.nontrivial();
        if wide && !sound {
            return match open_image(&fs.image) {
                Ok(_) => Err(format!("descriptors of {claimed} bytes are not refused")),
                Err(_) => Ok(()),
            };
        }
        let inodes = fs.geo.inodes();
        write_ids(&mut fs, 1..=inodes);
        check_all_ids(ctx, &fs)
    });

    // Everything else in group descriptors is irrelevant.
    e.family("other-fields", &|ctx: &Ctx| {
        let log_bs = *ctx.pick(&[0u32, 2, 6]);
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let desc_size = *ctx.pick(&[32, 64, 128]);
        let noise = ctx.range(1, 3) as u8;
        let groups = 3;
        let blocks_per_group: u32 = (8 << 10) << log_bs;
        let geo = Geo {
            inodes_per_group: 24,
            desc_size,
            blocks: 2 * u64::from(blocks_per_group) + 500,
            ..Geo::small(log_bs, csum)
        };
        let mut fs = Fs::new(geo);
        fs.noise = noise;
        for group in 0..groups {
            fs.write_descriptor(group);
        }
        // Free and used inodes and blocks, and the state, are irrelevant, too.
        if ctx.flag() {
            put(&mut fs.sb, 0x0c, 4, 0xffff_ffff);
            put(&mut fs.sb, 0x10, 4, 0xffff_ffff);
            put(&mut fs.sb, 0x3a, 2, 2);
            put(&mut fs.sb, 0x54, 4, 0xffff_ffff);
            put(&mut fs.sb, 0x5a, 2, 1);
            fs.write_superblock();
        }
        ctx.obs(&(log_bs, csum, desc_size, noise));
        ctx.note(|| format!("{:?}, noise {noise}", fs.geo));
        ctx.nontrivial();
        let inodes = fs.geo.inodes();
        write_ids(&mut fs, 1..=inodes);
        check_all_ids(ctx, &fs)
    });

    // What else inodes contain is irrelevant: owners, times, links, flags.
    e.family("other-inode-fields", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let geo = Geo {
            inodes_per_group: 8,
            blocks: 1 + 2 * 8192,
            ..Geo::small(0, csum)
        };
        let mut fs = Fs::new(geo);
        let what = ctx.choose(OTHER_FIELDS.len() + OTHER_FLAGS.len());
        let (offset, width, value) = match OTHER_FIELDS.get(what) {
            Some((offset, width)) => {
                let value = *ctx.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u64::MAX, 0x0008_0000_1000_0000]);
                (*offset, *width, value)
            }
            None => (0x20, 4, u64::from(0x80000 | OTHER_FLAGS[what - OTHER_FIELDS.len()])),
        };
        for ino in 1..=fs.geo.inodes() {
            let mut inode = RawInode::new(fs.geo.inode_size, mode::REG | 0o644, id_size(ino));
            inode.set(0x64, 4, u64::from(ino) ^ 0xabcd);
            if offset != 0x64 || ino != 2 {
                inode.set(offset, width, value);
            }
            fs.write_inode(ino, &inode);
        }
        ctx.obs(&(csum, what, value));
        ctx.note(|| format!("{width} bytes at {offset:#x} of every inode are {value:#x}"));
        ctx.nontrivial();
        check_all_ids(ctx, &fs)
    });

    // Which inodes were opened before (or could not be) is irrelevant.
    e.family("histories", &|ctx: &Ctx| {
        let geo = Geo {
            inodes_per_group: 8,
            blocks: 1 + 3 * 8192,
            ..Geo::small(0, Csum::Uuid)
        };
        let mut fs = Fs::new(geo);
        write_ids(&mut fs, 1..=24);
        // The table of the last group begins outside the device.
        let bad = ctx.flag();
        if bad {
            fs.tables.insert(2, 1 << 30);
            fs.write_descriptor(2);
        }
        let mut real = open_image(&fs.image)?;
        let mut history = Vec::new();
        // Either any sequence once, or a shorter one again and again.
        let (depth, rounds) = match (ctx.flag(), thorough) {
            (false, false) => (4, 1),
            (false, true) => (5, 1),
            (true, false) => (3, 70),
            (true, true) => (4, 70),
        };
        for step in 0..depth * rounds {
            if rounds > 1 {
                ctx.periodic(step % depth);
            }
            let ino = *ctx.pick(&[1u32, 2, 9, 10, 16, 17, 18, 24, 0, 25]);
            history.push(ino);
            match ino {
                0 | 25 => check_absent(&mut real, ino),
                17..=24 if bad => check_absent(&mut real, ino),
                _ => check_id(&mut real, ino),
            }
            .map_err(|e| format!("after opening {history:?}: {e}"))?;
            ctx.step();
        }
        ctx.obs(&(bad, &history));
        ctx.note(|| format!("{history:?}, table of group 2 outside: {bad}"));
        ctx.nontrivial();
        Ok(())
    });

    // Inodes that are opened in turn, and whose numbers or groups are alike:
    // what is kept of one must not be taken for the other.
    let many: Vec<(Fs, Vec<(u32, u32)>)> = [(0u32, 8u32, 70_000u32), (0, 8192, 300), (6, 524_288, 8191)]
        .iter()
        .map(|(log_bs, inodes_per_group, groups)| {
            let bs = 1024u32 << log_bs;
            let geo = Geo {
                inodes_per_group: *inodes_per_group,
                blocks_per_group: 8 * bs,
                blocks: u64::from(log_bs == &0) + u64::from(*groups) * u64::from(8 * bs),
                ..Geo::small(*log_bs, Csum::Uuid)
            };
            let gdt_end = geo.descriptors_block() + (u64::from(*groups) * u64::from(geo.desc_size)).div_ceil(bs.into());
            let tables = (0..*groups)
                .map(|g| (g, if g == 0 { gdt_end + 5 } else { u64::from(g) * u64::from(8 * bs) + 21 }))
                .collect();
            let mut fs = Fs::with_tables(geo, tables, 0);
            let inodes = fs.geo.inodes();
            let mut pairs = Vec::new();
            for first in [2, 12, inodes_per_group - 1, *inodes_per_group, inodes_per_group + 1, inodes_per_group + 5] {
                let mut apart: Vec<u64> = (0..32).map(|bit| 1 << bit).collect();
                apart.extend((0..32).map(|bit| u64::from(*inodes_per_group) << bit));
                apart.extend([3, 5, 7, 10, 100, 1000, 1009, 65_521]);
                apart.extend([3, 5, 7, 10, 100, 1000].map(|n| n * u64::from(*inodes_per_group)));
                apart.sort_unstable();
                apart.dedup();
                for apart in apart {
                    let second = u64::from(first) + apart;
                    if second <= u64::from(inodes) {
                        pairs.push((first, second as u32));
                    }
                }
            }
            write_ids(&mut fs, pairs.iter().flat_map(|(a, b)| [*a, *b]));
            (fs, pairs)
        })
        .collect();
    e.family("alike-inodes", &|ctx: &Ctx| {
        let which = ctx.choose(many.len());
        let (fs, pairs) = &many[which];
        let part = ctx.choose(6);
        ctx.obs(&(which, part));
        ctx.nontrivial();
        // (Opening reads all descriptors.)
        let real = open_image(&fs.image)?;
        for (a, b) in &pairs[pairs.len() * part / 6..pairs.len() * (part + 1) / 6] {
            for (a, b) in [(*a, *b), (*b, *a)] {
                let mut real = real.try_clone().map_err(|e| e.to_string())?;
                for ino in [a, b, a] {
                    check_id(&mut real, ino).map_err(|e| format!("{a} and {b} in turn: {e}"))?;
                    ctx.step();
                }
            }
        }
        Ok(())
    });

    // An inode count below what the groups could hold.
    e.family("inode-counts", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let geo = Geo {
            inodes_per_group: 8,
            blocks: 1 + 2 * 8192,
            ..Geo::small(0, csum)
        };
        let mut fs = Fs::new(geo);
        let limit = ctx.range(2, 16) as u32;
        put(&mut fs.sb, 0, 4, limit.into());
        fs.write_superblock();
        write_ids(&mut fs, 1..=16);
        let mut real = open_image(&fs.image)?;
        ctx.obs(&(csum, limit));
        ctx.nontrivial();
        for ino in 0..=20 {
            if (1..=limit).contains(&ino) {
                check_id(&mut real, ino)?;
            } else {
                check_absent(&mut real, ino)?;
            }
            ctx.step();
        }
        Ok(())
    });

    // Group descriptors that claim tables outside the device.
    e.family("tables-outside", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let geo = Geo {
            inodes_per_group: 8,
            blocks: 1 + 2 * 8192,
            ..Geo::small(0, csum)
        };
        let mut fs = Fs::new(geo.clone());
        write_ids(&mut fs, 1..=16);
        let bad = match ctx.choose(64 + 3) {
            n @ 0..=63 => (1u64 << n) | geo.blocks,
            64 => geo.blocks,
            65 => u64::MAX,
            _ => geo.blocks + 1,
        };
        let good = fs.tables[&1];
        fs.tables.insert(1, bad);
        fs.write_descriptor(1);
        fs.tables.insert(1, good);
        if bad < geo.blocks {
            return Ok(());
        }
        ctx.obs(&(csum, bad));
        ctx.note(|| format!("table of group 1 at {bad:#x}"));
        ctx.nontrivial();
        let mut real = open_image(&fs.image)?;
        for ino in 1..=8 {
            check_id(&mut real, ino)?;
            ctx.step();
        }
        for ino in 9..=16 {
            check_absent(&mut real, ino).map_err(|_| format!("inode {ino} came from outside the device"))?;
            ctx.step();
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Source {
    Data(u64),
    Zero,
}

/// Where each mapped block of a file is.
pub fn mapping(tree: &Tree, out: &mut HashMap<u32, Source>) {
    match tree {
        Tree::Leaf(runs) => {
            for run in runs {
                for i in 0..u32::from(run.len) {
                    out.insert(
                        run.logical + i,
                        if run.unwritten {
                            Source::Zero
                        } else {
                            Source::Data(run.start + u64::from(i))
                        },
                    );
                }
            }
        }
        Tree::Index(children) => {
            for (_, _, child) in children {
                mapping(child, out)
            }
        }
    }
}

pub fn fill(fs: &mut Fs, tree: &Tree) {
    match tree {
        Tree::Leaf(runs) => {
            for run in runs {
                let len = u64::from(run.len);
                for i in 0..len {
                    // The ends of what is not to be read are enough.
                    if !run.unwritten || i < 16 || i + 16 >= len {
                        fs.write_pattern(run.start + i);
                    }
                }
            }
        }
        Tree::Index(children) => {
            for (_, _, child) in children {
                fill(fs, child)
            }
        }
    }
}

/// Reads a file to the end and compares it with its mapping. Holes may be
/// errors, and end the comparison.
fn check_file<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    file: &mut Ext4RegularFile<D>,
    bs: usize,
    size: u64,
    map: &HashMap<u32, Source>,
    buffer: usize,
) -> Result<(), String> {
    if file.file_size_bytes() != size {
        return Err(format!("the file has {} bytes, should have {size}", file.file_size_bytes()));
    }
    let mut buf = vec![0xa5; buffer];
    let mut want = vec![0; bs];
    let mut at = 0u64;
    while at < size {
        let block = (at / bs as u64) as u32;
        buf.fill(0xa5);
        let n = match file.read_next_block(&mut buf) {
            Ok(n) => n,
            Err(_) if !map.contains_key(&block) => return Ok(()),
            Err(e) => return Err(format!("block {block} of {} is an error: {e}", size.div_ceil(bs as u64))),
        };
        ctx.step();
        let expected = (size - at).min(bs as u64) as usize;
        if n != expected {
            return Err(format!("block {block} has {n} bytes, should have {expected}"));
        }
        match map.get(&block) {
            Some(Source::Data(physical)) => pattern(*physical, &mut want),
            _ => want.fill(0),
        }
        if buf[..n] != want[..n] {
            let i = (0..n).find(|i| buf[*i] != want[*i]).unwrap();
            return Err(format!(
                "byte {i} of block {block} is {:#x}, should be {:#x} ({:?})",
                buf[i],
                want[i],
                map.get(&block)
            ));
        }
        at += n as u64;
    }
    for _ in 0..3 {
        match file.read_next_block(&mut buf) {
            Ok(0) => {}
            Ok(n) => return Err(format!("{n} bytes after the end of the file")),
            Err(e) => return Err(format!("an error at the end of the file: {e}")),
        }
        ctx.step();
    }
    Ok(())
}

fn check_tree(ctx: &Ctx, fs: &mut Fs, tree: &Tree, size: u64, buffer: usize) -> Result<(), String> {
    fill(fs, tree);
    fs.add_file(12, mode::REG | 0o644, size, tree);
    let mut map = HashMap::new();
    mapping(tree, &mut map);
    let mut real = open_image(&fs.image)?;
    let mut file = open_file(&mut real, 12)?;
    check_file(ctx, &mut file, fs.bs(), size, &map, buffer)
}

/// The shape of a tree, before blocks are assigned.
enum Shape {
    Leaf(Vec<(u16, bool)>),
    Index(Vec<Shape>),
}

fn choose_shape(ctx: &Ctx, depth: usize, root: bool) -> Shape {
    let most = if root { 4 } else { 6 };
    if depth == 0 {
        let mut runs = Vec::new();
        loop {
            let len = [1, 2, 3][ctx.deviate(3)];
            runs.push((len, ctx.deviate(2) == 1));
            if runs.len() == most || ctx.deviate(2) == 0 {
                break Shape::Leaf(runs);
            }
        }
    } else {
        let mut children = Vec::new();
        loop {
            children.push(choose_shape(ctx, depth - 1, false));
            if children.len() == most || ctx.deviate(2) == 0 {
                break Shape::Index(children);
            }
        }
    }
}

fn count(shape: &Shape) -> (u64, u64) {
    match shape {
        Shape::Leaf(runs) => (runs.iter().map(|r| u64::from(r.0) + 1).sum(), 0),
        Shape::Index(children) => children.iter().map(count).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1 + 1)),
    }
}

/// Assigns blocks: data ascending with gaps, adjacent, or descending.
fn build(shape: &Shape, logical: &mut u32, data: &mut dyn FnMut(u16) -> u64, nodes: &mut u64) -> Tree {
    match shape {
        Shape::Leaf(runs) => Tree::Leaf(
            runs.iter()
                .map(|(len, unwritten)| {
                    let run = Run {
                        logical: *logical,
                        len: *len,
                        start: data(*len),
                        unwritten: *unwritten,
                    };
                    *logical += u32::from(*len);
                    run
                })
                .collect(),
        ),
        Shape::Index(children) => Tree::Index(
            children
                .iter()
                .map(|child| {
                    let first = *logical;
                    let block = *nodes;
                    *nodes += 1;
                    (first, block, build(child, logical, data, nodes))
                })
                .collect(),
        ),
    }
}

fn runs_of(lens: &[(u16, bool)], first: u32, start: u64, gap: u64) -> Vec<Run> {
    let mut logical = first;
    let mut at = start;
    lens.iter()
        .map(|(len, unwritten)| {
            let run = Run {
                logical,
                len: *len,
                start: at,
                unwritten: *unwritten,
            };
            logical += u32::from(*len);
            at += u64::from(*len) + gap;
            run
        })
        .collect()
}

fn run_c13(e: &mut Explorer) {
    let thorough = e.thorough;
    let bound = if e.thorough { 6 } else { 4 };
    e.bounded("shapes", bound, &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid, Csum::Seed(0xdead_beef)]);
        let depth = ctx.choose(6);
        let shape = choose_shape(ctx, depth, true);
        let placement = ctx.deviate(3);
        let tail = ctx.deviate(4);
        let buffer = ctx.deviate(3);
        let beyond = ctx.deviate(2) == 1;
        let mut fs = Fs::new(Geo::small(0, csum));
        let (data_blocks, node_blocks) = count(&shape);
        let mut nodes = fs.alloc(node_blocks);
        let mut next = fs.alloc(data_blocks + 4);
        let mut end = next + data_blocks;
        let mut data = |len: u16| match placement {
            0 => {
                next += u64::from(len) + 1;
                next - u64::from(len) - 1
            }
            1 => {
                next += u64::from(len);
                next - u64::from(len)
            }
            _ => {
                end -= u64::from(len);
                end
            }
        };
        let mut blocks = 0;
        let tree = build(&shape, &mut blocks, &mut data, &mut nodes);
        // Preallocated blocks may lie beyond the end.
        let used = if beyond { blocks - 1 } else { blocks };
        let size = match (used, tail) {
            (0, _) => 0,
            (_, 0) => u64::from(used) * 1024,
            (_, 1) => u64::from(used) * 1024 - 1,
            (_, 2) => u64::from(used) * 1024 - 512,
            _ => u64::from(used) * 1024 - 1023,
        };
        ctx.note(|| format!("{tree:?}, {size} bytes"));
        ctx.obs(&(&tree, size, csum, buffer));
        if blocks > 1 || size % 1024 != 0 {
            ctx.nontrivial();
        }
        check_tree(ctx, &mut fs, &tree, size, [1024, 1025, 4096][buffer])
    });

    e.family("sizes", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let size = ctx.choose(3 * 1024 + 1) as u64;
        let how = ctx.choose(3);
        let mut fs = Fs::new(Geo::small(0, csum));
        let start = fs.alloc(8);
        let blocks = size.div_ceil(1024) as u16;
        let tree = match how {
            _ if blocks == 0 => Tree::Leaf(vec![]),
            0 => Tree::Leaf(runs_of(&[(blocks, false)], 0, start, 0)),
            1 => Tree::Leaf(runs_of(&vec![(1, false); blocks.into()], 0, start, 1)),
            // With blocks allocated beyond the end.
            _ => Tree::Leaf(runs_of(&[(blocks, false), (2, true)], 0, start, 0)),
        };
        ctx.obs(&(csum, size, how));
        ctx.nontrivial();
        check_tree(ctx, &mut fs, &tree, size, 1024)
    });

    // The same file with every block size, ending at every place of interest.
    e.family("block-sizes", &|ctx: &Ctx| {
        let log_bs = ctx.choose(7) as u32;
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let mut fs = Fs::new(Geo::small(log_bs, csum));
        let bs = fs.bs() as u64;
        let depth = ctx.choose(3);
        let nodes = fs.alloc(4);
        let start = fs.alloc(20);
        let mut tree = Tree::Leaf(runs_of(&[(2, false), (1, true), (3, false)], 0, start, 1));
        for level in 0..depth {
            tree = Tree::Index(vec![(0, nodes + level as u64, tree)]);
        }
        let short = *ctx.pick(&[0, 1, 511, 512, 1023, bs / 2, bs - 1]);
        let size = 6 * bs - short;
        ctx.obs(&(log_bs, csum, depth, size));
        ctx.nontrivial();
        ctx.note(|| format!("{tree:?}, {size} bytes"));
        check_tree(ctx, &mut fs, &tree, size, bs as usize)
    });

    // Nodes that are completely full.
    let largest = if e.thorough { 7 } else { 4 };
    e.family("full-nodes", &|ctx: &Ctx| {
        let log_bs = ctx.choose(largest) as u32;
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let geo = Geo {
            blocks: 200_000,
            ..Geo::small(log_bs, csum)
        };
        let mut fs = Fs::new(geo);
        let bs = fs.bs() as u64;
        let max = u32::from(fs.node_max());
        let kind = ctx.choose(4);
        let nodes = fs.alloc(10_000);
        let mut start = fs.alloc(0);
        let leaf = |first: u32, count: u32, next: &mut u64| {
            let runs = runs_of(&vec![(1, false); count as usize], first, *next, 1);
            *next += 2 * u64::from(count);
            Tree::Leaf(runs)
        };
        let (tree, blocks) = match kind {
            // A full root.
            0 => (leaf(0, 4, &mut start), 4),
            // A full leaf, and one with a single entry.
            1 => (
                Tree::Index(vec![
                    (0, nodes, leaf(0, max, &mut start)),
                    (max, nodes + 1, leaf(max, 1, &mut start)),
                ]),
                max + 1,
            ),
            // A full index of small leaves.
            2 => {
                let children = (0..max)
                    .map(|i| (2 * i, nodes + 1 + u64::from(i), leaf(2 * i, 2, &mut start)))
                    .collect();
                (Tree::Index(vec![(0, nodes, Tree::Index(children))]), 2 * max)
            }
            // A full root of full leaves.
            _ => (
                Tree::Index(
                    (0..4)
                        .map(|i| (i * max, nodes + u64::from(i), leaf(i * max, max, &mut start)))
                        .collect(),
                ),
                4 * max,
            ),
        };
        if u64::from(blocks) * bs > 400 << 20 {
            return Ok(());
        }
        ctx.obs(&(log_bs, csum, kind));
        ctx.note(|| format!("{kind}, nodes of {max}"));
        ctx.nontrivial();
        check_tree(ctx, &mut fs, &tree, u64::from(blocks) * bs - 3, bs as usize)
    });

    e.family("long-extents", &|ctx: &Ctx| {
        let lens = *ctx.pick(&[
            (0x7fff, false),
            (0x8000, false),
            (0x7fff, true),
            (0x4000, true),
            (0x100, false),
            (0xff, true),
        ]);
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let mut fs = Fs::new(Geo {
            blocks: 70_000,
            ..Geo::small(0, csum)
        });
        let start = fs.alloc(0);
        let tree = Tree::Leaf(runs_of(&[lens, (1, false), (2, true)], 0, start, 3));
        let size = (u64::from(lens.0) + 3) * 1024 - 5;
        ctx.obs(&(lens, csum));
        ctx.nontrivial();
        check_tree(ctx, &mut fs, &tree, size, 1024)
    });

    e.family("far-blocks", &|ctx: &Ctx| {
        let log_bs = *ctx.pick(&[0u32, 6]);
        let bit = ctx.range(8, 45);
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let far = (1u64 << bit) + 5;
        let what = ctx.choose(3);
        let mut fs = Fs::with_tables(
            Geo {
                log_cluster: 19 - log_bs,
                blocks_per_group: 1 << 31,
                blocks: far + 100,
                ..Geo::small(log_bs, csum)
            },
            BTreeMap::from([(0, far + 50)]),
            0,
        );
        let bs = fs.bs() as u64;
        let (data, node) = match what {
            0 => (far, far + 10),
            1 => (far, far + 11),
            _ => (far + 10, far),
        };
        let runs = runs_of(&[(2, false), (1, false)], 0, data, 1);
        let tree = if what == 0 {
            Tree::Leaf(runs)
        } else {
            Tree::Index(vec![(0, node, Tree::Leaf(runs))])
        };
        ctx.obs(&(log_bs, bit, csum, what));
        ctx.note(|| format!("{tree:?}"));
        ctx.nontrivial();
        check_tree(ctx, &mut fs, &tree, 3 * bs - 1, bs as usize)
    });

    // Blocks that are read in turn, and whose numbers are alike: what is kept
    // of one must not be taken for the other.
    e.family("alike-blocks", &|ctx: &Ctx| {
        let log_bs = *ctx.pick(&[0u32, 2, 6]);
        let apart = match ctx.choose(46 - log_bs as usize) {
            bit @ ..5 => [3, 5, 7, 11, 100][bit],
            bit => 1u64 << bit,
        };
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let what = ctx.choose(4);
        let near = 200u64;
        let far = near + apart * 4;
        let mut fs = Fs::with_tables(
            Geo {
                log_cluster: 19 - log_bs,
                blocks_per_group: 1 << 31,
                blocks: far + 5000,
                ..Geo::small(log_bs, csum)
            },
            BTreeMap::from([(0, far + 3000)]),
            0,
        );
        let bs = fs.bs() as u64;
        let one = |logical, start| Run { logical, len: 1, start, unwritten: false };
        let size = 4 * bs - 1;
        ctx.obs(&(log_bs, apart, csum, what));
        ctx.nontrivial();
        if what < 3 {
            let tree = match what {
                // Data and data.
                0 => Tree::Leaf(vec![
                    one(0, near),
                    one(1, near + apart),
                    one(2, near + 2 * apart),
                    one(3, far),
                ]),
                // Nodes and nodes.
                1 => Tree::Index(
                    (0..4)
                        .map(|i| (i, near + apart * u64::from(i), Tree::Leaf(vec![one(i, far + 1 + u64::from(i))])))
                        .collect(),
                ),
                // Nodes and data.
                _ => Tree::Index(vec![
                    (0, near, Tree::Leaf(vec![one(0, near + apart), one(1, near + 2 * apart)])),
                    (2, near + 3 * apart, Tree::Leaf(vec![one(2, far), one(3, far + apart.min(1000))])),
                ]),
            };
            ctx.note(|| format!("{tree:?}"));
            return check_tree(ctx, &mut fs, &tree, size, bs as usize);
        }
        // Several files in turn.
        let mut maps = Vec::new();
        for i in 0..4u32 {
            let start = near + apart * u64::from(i);
            let tree = match i % 2 {
                0 => Tree::Leaf(vec![one(0, start)]),
                _ => Tree::Index(vec![(0, start, Tree::Leaf(vec![one(0, far + 1500 + u64::from(i))]))]),
            };
            fill(&mut fs, &tree);
            fs.add_file(11 + i, mode::REG | 0o644, bs, &tree);
            let mut map = HashMap::new();
            mapping(&tree, &mut map);
            maps.push(map);
        }
        let mut real = open_image(&fs.image)?;
        for _ in 0..2 {
            for i in 0..4u32 {
                let mut file = open_file(&mut real, 11 + i)?;
                check_file(ctx, &mut file, fs.bs(), bs, &maps[i as usize], fs.bs())
                    .map_err(|e| format!("file {i}: {e}"))?;
            }
        }
        Ok(())
    });

    // More blocks than 16 bits (thorough: 24 bits) can count.
    e.family("many-blocks", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let large = ctx.flag();
        let count = if large && thorough { (1u32 << 24) + 70_000 } else { 70_000 + 65_536 * u32::from(large) };
        let mut fs = Fs::new(Geo {
            blocks: u64::from(count) + 2000,
            ..Geo::small(0, csum)
        });
        let node = fs.alloc(20);
        let start = fs.alloc(0);
        let mut leaves = Vec::new();
        let mut runs = Vec::new();
        let mut logical = 0;
        while logical < count {
            // Written blocks here and there.
            let n = runs.len();
            let len = if n % 2 == 0 { 7 } else { 0x7fff }.min(count - logical);
            runs.push(Run { logical, len: len as u16, start: start + u64::from(logical), unwritten: n % 2 == 1 });
            logical += len;
            if runs.len() == usize::from(fs.node_max()) || logical == count {
                leaves.push((runs[0].logical, node + 1 + leaves.len() as u64, Tree::Leaf(std::mem::take(&mut runs))));
            }
        }
        let tree = Tree::Index(vec![(0, node, Tree::Index(leaves))]);
        ctx.obs(&(csum, count));
        ctx.nontrivial();
        check_tree(ctx, &mut fs, &tree, u64::from(count) * 1024 - 1, 1024)
    });

    // Sizes beyond 32 bits, of blocks that were preallocated.
    e.family("large-sizes", &|ctx: &Ctx| {
        let size = *ctx.pick(&[(1u64 << 32) - 1, 1 << 32, (1 << 32) + 65_537]);
        let mut fs = Fs::new(Geo {
            blocks: 80_000,
            ..Geo::small(6, Csum::Uuid)
        });
        let start = fs.alloc(0);
        let blocks = size.div_ceil(65_536);
        let mut lens = Vec::new();
        let mut rest = blocks - 1;
        while rest > 0 {
            let len = rest.min(0x7fff);
            lens.push((len as u16, true));
            rest -= len;
        }
        lens.push((1, false));
        let tree = Tree::Leaf(runs_of(&lens, 0, start, 0));
        ctx.obs(&size);
        ctx.nontrivial();
        check_tree(ctx, &mut fs, &tree, size, 65_536)
    });

    // Any set of blocks of a small file may be missing.
    e.family("holes", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let depth = ctx.choose(2);
        let mut fs = Fs::new(Geo::small(0, csum));
        let node = fs.alloc(2);
        let start = fs.alloc(20);
        let total = 5;
        let mut runs = Vec::new();
        for i in 0..total {
            match ctx.choose(3) {
                0 => {}
                kind => runs.push(Run {
                    logical: i,
                    len: 1,
                    start: start + 2 * u64::from(i),
                    unwritten: kind == 2,
                }),
            }
        }
        let size = 1024 * u64::from(total) - if ctx.flag() { 1000 } else { 0 };
        let tree = if depth == 0 && runs.len() <= 4 {
            Tree::Leaf(runs)
        } else if runs.is_empty() {
            return Ok(());
        } else {
            Tree::Index(vec![(runs[0].logical, node, Tree::Leaf(runs))])
        };
        ctx.obs(&(csum, &tree, size));
        ctx.note(|| format!("{tree:?}, {size} bytes"));
        ctx.nontrivial();
        check_tree(ctx, &mut fs, &tree, size, 1024)
    });

    // A buffer that is too small is refused and does not spoil the reading.
    e.family("small-buffers", &|ctx: &Ctx| {
        let log_bs = ctx.choose(3) as u32;
        let mut fs = Fs::new(Geo::small(log_bs, Csum::Uuid));
        let bs = fs.bs();
        let start = fs.alloc(8);
        // Any of the blocks may be unwritten.
        let unwritten = ctx.choose(4);
        let lens: &[(u16, bool)] = match unwritten {
            0 => &[(2, false), (1, false)],
            1 => &[(1, true), (1, false), (1, false)],
            2 => &[(1, false), (1, true), (1, false)],
            _ => &[(2, false), (1, true)],
        };
        let tree = Tree::Leaf(runs_of(lens, 0, start, 1));
        let small = *ctx.pick(&[0, 1, 511, 512, bs / 2, bs - 1]);
        let when = ctx.choose(4);
        fill(&mut fs, &tree);
        // The last block is partial, and shorter than some of these buffers.
        fs.add_file(12, mode::REG | 0o644, 2 * bs as u64 + 10, &tree);
        let mut map = HashMap::new();
        mapping(&tree, &mut map);
        let mut real = open_image(&fs.image)?;
        let mut file = open_file(&mut real, 12)?;
        let mut want = vec![0; bs];
        for block in 0..3u32 {
            if block as usize == when {
                let mut buf = vec![0; small];
                if let Ok(n) = file.read_next_block(&mut buf) {
                    return Err(format!("a buffer of {small} bytes got {n} bytes of a block of {bs}"));
                }
                ctx.step();
            }
            let mut buf = vec![0; bs];
            match file.read_next_block(&mut buf) {
                Err(_) if when <= block as usize => return Ok(()),
                Err(e) => return Err(format!("block {block}: {e}")),
                Ok(n) => {
                    match map[&block] {
                        Source::Data(physical) => pattern(physical, &mut want),
                        _ => want.fill(0),
                    }
                    if buf[..n] != want[..n] || n != if block == 2 { 10 } else { bs } {
                        return Err(format!("block {block} is wrong after a buffer of {small} bytes"));
                    }
                }
            }
            ctx.step();
        }
        ctx.obs(&(log_bs, small, when, unwritten));
        ctx.nontrivial();
        Ok(())
    });

    // Flags and other fields of the inode that do not concern the contents.
    e.family("other-fields", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let mut fs = Fs::new(Geo::small(0, csum));
        let start = fs.alloc(8);
        let node = fs.alloc(1);
        let (offset, width) = *ctx.pick(&OTHER_FIELDS);
        let value = *ctx.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u64::MAX, 0x0008_0000_1000_0000]);
        let size = *ctx.pick(&[3000, 2049, 3072]);
        let tree = Tree::Index(vec![(0, node, Tree::Leaf(runs_of(&[(1, false), (2, false)], 0, start, 1)))]);
        fill(&mut fs, &tree);
        let mut inode = RawInode::new(256, mode::REG | 0o600, size);
        inode.set(offset, width, value);
        let root = fs.write_tree(12, inode.generation(), &tree);
        inode.set_root(&root);
        fs.write_inode(12, &inode);
        let mut map = HashMap::new();
        mapping(&tree, &mut map);
        ctx.obs(&(csum, offset, value, size));
        ctx.note(|| format!("{width} bytes at {offset:#x} are {value:#x}"));
        ctx.nontrivial();
        let mut real = open_image(&fs.image)?;
        let mut file = open_file(&mut real, 12)?;
        check_file(ctx, &mut file, 1024, size, &map, 1024)
    });

    // Nor are most flags, generations of nodes, and what is unused in entries.
    e.family("other-flags", &|ctx: &Ctx| {
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let mut fs = Fs::new(Geo::small(0, csum));
        let start = fs.alloc(8);
        let node = fs.alloc(1);
        let flags = match ctx.choose(OTHER_FLAGS.len() + 2) {
            0 => 0,
            1 => OTHER_FLAGS.iter().fold(0, |all, flag| all | flag),
            i => OTHER_FLAGS[i - 2],
        };
        let value = *ctx.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u64::from(u32::MAX)]);
        let size = *ctx.pick(&[3000, 2049, 3072]);
        let leaf = Tree::Leaf(runs_of(&[(1, false), (2, false)], 0, start, 1));
        let tree = Tree::Index(vec![(0, node, leaf.clone())]);
        fill(&mut fs, &tree);
        let mut inode = RawInode::new(256, mode::REG | 0o600, size);
        inode.set(0x20, 4, u64::from(flags | 0x80000));
        let mut root = fs.write_tree(12, inode.generation(), &tree);
        put(&mut root, 8, 4, value);
        put(&mut root, 12 + 10, 2, value);
        inode.set_root(&root);
        fs.write_inode(12, &inode);
        let mut block = fs.node(12, inode.generation(), &leaf);
        put(&mut block, 8, 4, value);
        fs.seal_node(12, inode.generation(), &mut block);
        fs.write_block(node, &block);
        let mut map = HashMap::new();
        mapping(&tree, &mut map);
        ctx.obs(&(csum, flags, value, size));
        ctx.note(|| format!("flags {flags:#x}, generations {value:#x}"));
        ctx.nontrivial();
        let mut real = open_image(&fs.image)?;
        let mut file = open_file(&mut real, 12)?;
        check_file(ctx, &mut file, 1024, size, &map, 1024)
    });
}

// ---------------------------------------------------------------- C14

/// Which contents each block of a file may have, by the rules of Linux for
/// extent trees: none at all if the tree is malformed there.
struct Allowed {
    blocks: Vec<Vec<Source>>,
    /// Blocks that belong to malformed parts.
    bad: Vec<bool>,
    /// Those at which there must be an error, since entries are not in order
    /// or not where the entry of their node says.
    forbidden: Vec<bool>,
    malformed: bool,
    /// Whether every block of the file is mapped, once.
    complete: bool,
}

struct Interpreter<'a> {
    fs: &'a Fs,
    allowed: Allowed,
    visited: usize,
    /// The end of what the entries so far map.
    mapped: u64,
}

impl Interpreter<'_> {
    fn mark_bad(&mut self, from: u64, to: u64) {
        self.allowed.malformed = true;
        for block in from..to.min(self.allowed.blocks.len() as u64) {
            self.allowed.bad[block as usize] = true;
        }
    }

    fn node(&mut self, node: &[u8], capacity: usize, depth: Option<u16>, from: u64, to: u64) {
        self.visited += 1;
        let entries = get(node, 2, 2) as usize;
        let max = get(node, 4, 2) as usize;
        let this_depth = get(node, 6, 2) as u16;
        if get(node, 0, 2) != 0xf30a
            || entries > max
            || max > capacity
            || max == 0
            || depth.is_some_and(|d| d != this_depth)
            || this_depth > 5
            || (entries == 0 && (depth.is_some() || this_depth > 0))
            || self.visited > 1000
        {
            return self.mark_bad(from, to);
        }
        let mut end = 0u64;
        for i in 0..entries {
            let at = 12 + 12 * i;
            let logical = get(node, at, 4);
            if i > 0 && logical < end || (depth.is_some() && i == 0 && logical != from) {
                // Unsorted, overlapping, or not where the parent says.
                self.mark_bad(0, to);
                let first = if i > 0 { self.mapped } else { self.mapped.max(from.min(logical)) };
                for block in first..to.min(self.allowed.forbidden.len() as u64) {
                    self.allowed.forbidden[block as usize] = true;
                }
            }
            if this_depth == 0 {
                let raw = get(node, at + 4, 2);
                let unwritten = raw > 0x8000;
                let len = if unwritten { raw - 0x8000 } else { raw };
                let start = get(node, at + 6, 2) << 32 | get(node, at + 8, 4);
                if len == 0 || logical + len > to {
                    self.mark_bad(0, 1 << 32);
                }
                if start + len > self.fs.geo.blocks {
                    self.allowed.malformed = true;
                }
                for n in 0..len {
                    let Some(sources) = self.allowed.blocks.get_mut((logical + n) as usize) else {
                        break;
                    };
                    if unwritten {
                        sources.push(Source::Zero);
                    } else if start + n < self.fs.geo.blocks {
                        sources.push(Source::Data(start + n));
                    } else {
                        self.allowed.bad[(logical + n) as usize] = true;
                    }
                }
                end = logical + len;
                self.mapped = self.mapped.max(end);
            } else {
                let child = get(node, at + 4, 4) | get(node, at + 8, 2) << 32;
                let next = if i + 1 < entries {
                    get(node, at + 12, 4)
                } else {
                    to
                };
                if next <= logical && i + 1 < entries {
                    self.mark_bad(0, to);
                }
                if logical >= to {
                    self.mark_bad(0, 1 << 32);
                }
                if child >= self.fs.geo.blocks {
                    self.mark_bad(logical, next);
                } else {
                    let bs = self.fs.bs();
                    let bytes = self.fs.image.bytes(child * bs as u64, bs);
                    self.node(&bytes, (bs - 12) / 12, Some(this_depth - 1), logical, next);
                }
                end = logical + 1;
            }
        }
    }
}

fn interpret(fs: &Fs, root: &[u8], size: u64) -> Allowed {
    let blocks = size.div_ceil(fs.bs() as u64) as usize;
    let mut interpreter = Interpreter {
        fs,
        allowed: Allowed {
            blocks: vec![Vec::new(); blocks],
            bad: vec![false; blocks],
            forbidden: vec![false; blocks],
            malformed: false,
            complete: true,
        },
        visited: 0,
        mapped: 0,
    };
    interpreter.node(root, 4, None, 0, 1 << 32);
    let mut allowed = interpreter.allowed;
    for (sources, bad) in allowed.blocks.iter_mut().zip(&allowed.bad) {
        if sources.len() != 1 || *bad {
            allowed.complete = false;
        }
        // A hole.
        if sources.is_empty() && !bad {
            sources.push(Source::Zero);
        }
    }
    if allowed.malformed {
        allowed.complete = false;
    }
    allowed
}

fn content_is(fs: &Fs, source: Source, got: &[u8]) -> bool {
    match source {
        Source::Zero => got.iter().all(|b| *b == 0),
        Source::Data(block) => {
            let bs = fs.bs();
            fs.image.bytes(block * bs as u64, bs)[..got.len()] == *got
        }
    }
}

/// Reads a file whose tree may be malformed, and judges what comes out.
fn check_malformed(ctx: &Ctx, fs: &Fs, ino: u32, root: &[u8], size: u64) -> Result<(), String> {
    let allowed = interpret(fs, root, size);
    let bs = fs.bs();
    if allowed.malformed {
        ctx.nontrivial();
    }
    let mut real = open_image(&fs.image)?;
    let mut file = match real.open_file(InodeNumber(ino)) {
        Ok(Ext4File::RegularFile(file)) => file,
        Ok(_) => return Err("not a regular file".to_string()),
        Err(e) if allowed.complete => return Err(format!("a sound file does not open: {e}")),
        Err(_) => return Ok(()),
    };
    let mut buf = vec![0; bs];
    let mut at = 0u64;
    let mut failed = 0;
    let mut calls = 0;
    loop {
        calls += 1;
        if calls > size / bs as u64 + 20 {
            return Err("reading does not end".to_string());
        }
        ctx.step();
        let block = (at / bs as u64) as usize;
        match file.read_next_block(&mut buf) {
            Ok(0) => {
                if failed == 0 && at != size {
                    return Err(format!("the file ends after {at} of {size} bytes"));
                }
                return Ok(());
            }
            Ok(n) => {
                if at >= size && failed == 0 {
                    return Err("data beyond the end of the file".to_string());
                }
                if failed == 0 && at < size && allowed.forbidden[block] {
                    return Err(format!("block {block} is returned in spite of the order of the entries"));
                }
                let right = if failed == 0 {
                    n as u64 == (size - at).min(bs as u64)
                        && allowed.blocks[block].iter().any(|s| content_is(fs, *s, &buf[..n]))
                } else {
                    // It is not said where reading goes on after an error.
                    allowed.blocks[block..]
                        .iter()
                        .flatten()
                        .any(|s| content_is(fs, *s, &buf[..n]))
                };
                if !right {
                    return Err(format!(
                        "block {block} is not {:?} ({n} bytes, first {:#x}; malformed there: {})",
                        allowed.blocks.get(block),
                        buf[0],
                        allowed.bad.get(block).copied().unwrap_or_default()
                    ));
                }
                at += n as u64;
            }
            Err(e) => {
                if allowed.complete {
                    return Err(format!("block {block} of a sound file is an error: {e}"));
                }
                failed += 1;
                if failed == 4 {
                    return Ok(());
                }
            }
        }
    }
}

const SIZE14: u64 = 7 * 1024 - 100;

/// A small file with its nodes: the root and the blocks, by their number.
struct Base {
    fs: Fs,
    root: [u8; 60],
    generation: u32,
    nodes: Vec<u64>,
}

fn base14(kind: usize, csum: Csum) -> Base {
    let mut fs = Fs::new(Geo {
        blocks: 100,
        ..Geo::small(0, csum)
    });
    let node = fs.alloc(8);
    let data = fs.alloc(40);
    for block in data..data + 40 {
        fs.write_pattern(block);
    }
    let (tree, nodes) = match kind {
        0 => (
            Tree::Leaf(runs_of(&[(2, false), (3, false), (2, true)], 0, data, 2)),
            vec![],
        ),
        1 => (
            Tree::Index(vec![
                (0, node, Tree::Leaf(runs_of(&[(1, false), (2, false)], 0, data, 2))),
                (3, node + 1, Tree::Leaf(runs_of(&[(2, false), (2, false)], 3, data + 20, 2))),
            ]),
            vec![node, node + 1],
        ),
        2 => (
            Tree::Index(vec![(
                0,
                node,
                Tree::Index(vec![
                    (0, node + 1, Tree::Leaf(runs_of(&[(4, false)], 0, data, 0))),
                    (4, node + 2, Tree::Leaf(runs_of(&[(1, true), (2, false)], 4, data + 20, 1))),
                ]),
            )]),
            vec![node, node + 1, node + 2],
        ),
        _ => (
            Tree::Index(vec![
                (0, node, Tree::Index(vec![(0, node + 1, Tree::Leaf(runs_of(&[(3, false)], 0, data, 0)))])),
                (
                    3,
                    node + 2,
                    Tree::Index(vec![(3, node + 3, Tree::Leaf(runs_of(&[(4, false)], 3, data + 20, 0)))]),
                ),
            ]),
            vec![node, node + 1, node + 2, node + 3],
        ),
    };
    let inode = fs.add_file(12, mode::REG | 0o644, SIZE14, &tree);
    Base {
        root: inode.0[0x28..0x28 + 60].try_into().unwrap(),
        generation: inode.generation(),
        fs,
        nodes,
    }
}

/// Rewrites the base with some changed nodes (the root is number 0).
fn rewritten(base: &Base, edit: impl FnOnce(&mut [Vec<u8>])) -> (Fs, Vec<u8>) {
    let mut fs = base.fs.clone();
    let mut nodes = vec![base.root.to_vec()];
    for block in &base.nodes {
        nodes.push(fs.image.bytes(block * 1024, 1024));
    }
    edit(&mut nodes);
    for (bytes, block) in nodes[1..].iter_mut().zip(&base.nodes) {
        fs.seal_node(12, base.generation, bytes);
        fs.write_block(*block, bytes);
    }
    let mut inode = RawInode::new(256, mode::REG | 0o644, SIZE14);
    inode.set_root(&nodes[0][..].try_into().unwrap());
    fs.write_inode(12, &inode);
    (fs, nodes.swap_remove(0))
}

fn run_c14(e: &mut Explorer) {
    let bases: Vec<Vec<Base>> = [Csum::None, Csum::Uuid]
        .iter()
        .map(|csum| (0..4).map(|kind| base14(kind, *csum)).collect())
        .collect();
    let bases = &bases;

    e.family("sound", &|ctx: &Ctx| {
        let base = &bases[ctx.choose(2)][ctx.choose(4)];
        let (fs, root) = rewritten(base, |_| {});
        ctx.nontrivial();
        ctx.obs(&root);
        let allowed = interpret(&fs, &root, SIZE14);
        assert!(allowed.complete, "harness: the base is not sound");
        check_malformed(ctx, &fs, 12, &root, SIZE14)
    });

    e.family("bytes", &|ctx: &Ctx| {
        let csum = ctx.choose(2);
        let kind = ctx.choose(4);
        let base = &bases[csum][kind];
        let node = ctx.choose(1 + base.nodes.len());
        let byte = ctx.choose(60);
        let value = ctx.choose(256) as u8;
        let (fs, root) = rewritten(base, |nodes| nodes[node][byte] = value);
        ctx.obs(&(csum, kind, node, byte, value));
        ctx.note(|| format!("tree {kind}, node {node}, byte {byte} is {value:#x}"));
        check_malformed(ctx, &fs, 12, &root, SIZE14)
    });

    // Special values of the fields, alone and in pairs.
    let bound = if e.thorough { 3 } else { 2 };
    e.bounded("fields", bound, &|ctx: &Ctx| {
        let csum = ctx.choose(2);
        let kind = ctx.choose(4);
        let base = &bases[csum][kind];
        let mut made = Vec::new();
        let (fs, root) = rewritten(base, |nodes| {
            let blocks: Vec<u64> = base.nodes.clone();
            for (number, node) in nodes.iter_mut().enumerate() {
                let mut field = |node: &mut Vec<u8>, at: usize, width: usize, values: &[u64]| {
                    let n = ctx.deviate(values.len() + 1);
                    if n > 0 {
                        put(node, at, width, values[n - 1]);
                        made.push((number, at, values[n - 1]));
                    }
                };
                let entries = get(node, 2, 2) as usize;
                let depth = get(node, 6, 2);
                field(node, 0, 2, &[0, 0xf30b]);
                field(node, 2, 2, &[0, 1, 3, 4, 5, 84, 85, 0xffff]);
                field(node, 4, 2, &[0, 1, 2, 5, 84, 85, 0xffff]);
                field(node, 6, 2, &[0, 1, 2, 3, 5, 6, 0xffff]);
                for entry in 0..entries {
                    let at = 12 + 12 * entry;
                    field(node, at, 4, &[0, 1, 2, 4, 7, 0xffff_ffff]);
                    if depth == 0 {
                        field(node, at + 4, 2, &[0, 1, 3, 0x7fff, 0x8000, 0x8001, 0xffff]);
                        field(node, at + 6, 2, &[1, 0xffff]);
                        field(node, at + 8, 4, &[0, 99, 100, 0xffff_ffff]);
                    } else {
                        // Its own block, its parents and siblings, and nonsense.
                        let mut targets = blocks.clone();
                        targets.extend([0, 50, 99, 100, 0xffff_ffff]);
                        field(node, at + 4, 4, &targets);
                        field(node, at + 8, 2, &[1, 0xffff]);
                    }
                }
            }
        });
        ctx.obs(&(csum, kind, &made));
        ctx.note(|| format!("tree {kind}: (node, offset, value) {made:?}"));
        check_malformed(ctx, &fs, 12, &root, SIZE14)
    });

    // Nodes replaced by other blocks: siblings, parents, data, zeros.
    e.family("misplaced-nodes", &|ctx: &Ctx| {
        let csum = ctx.choose(2);
        let kind = ctx.range(1, 3);
        let base = &bases[csum][kind];
        let node = ctx.range(1, base.nodes.len());
        let with = ctx.choose(base.nodes.len() + 3);
        let (fs, root) = rewritten(base, |nodes| {
            let bytes = match with.checked_sub(base.nodes.len()) {
                None => nodes[1 + with].clone(),
                Some(0) => vec![0; 1024],
                Some(1) => vec![0xff; 1024],
                Some(_) => {
                    let mut bytes = vec![0; 1024];
                    bytes[..60].copy_from_slice(&nodes[0]);
                    bytes
                }
            };
            nodes[node] = bytes;
        });
        ctx.obs(&(csum, kind, node, with));
        check_malformed(ctx, &fs, 12, &root, SIZE14)
    });

    // A root that leads to itself through any number of levels.
    e.family("cycles", &|ctx: &Ctx| {
        let csum = ctx.choose(2);
        let base = &bases[csum][3];
        let depth = ctx.choose(0x10000) as u64;
        let fan = ctx.range(1, 4);
        let (fs, root) = rewritten(base, |nodes| {
            let blocks = &base.nodes;
            for (i, node) in nodes.iter_mut().enumerate() {
                let max = if i == 0 { 4 } else { 84 };
                put_header(node, fan as u16, max, depth.saturating_sub(u64::from(i > 0)) as u16);
                for entry in 0..fan {
                    let at = 12 + 12 * entry;
                    put(node, at, 4, 0);
                    put(node, at + 4, 4, blocks[entry % blocks.len()]);
                    put(node, at + 8, 4, 0);
                }
            }
        });
        ctx.obs(&(csum, depth, fan));
        ctx.nontrivial();
        check_malformed(ctx, &fs, 12, &root, SIZE14)
    });

    // Files of any claimed size on the trees as they are.
    e.family("claimed-sizes", &|ctx: &Ctx| {
        let csum = ctx.choose(2);
        let kind = ctx.choose(5);
        let size = match ctx.choose(40 + 15) {
            n @ 0..=39 => n as u64 * 256,
            n => 1u64 << (n - 40 + 10),
        };
        let (mut fs, root) = if kind == 4 {
            (bases[csum][0].fs.clone(), empty_root().to_vec())
        } else {
            rewritten(&bases[csum][kind], |_| {})
        };
        let mut inode = RawInode::new(256, mode::REG | 0o644, size);
        inode.set_root(&root[..].try_into().unwrap());
        fs.write_inode(12, &inode);
        ctx.obs(&(csum, kind, size));
        ctx.note(|| format!("tree {kind}, {size} bytes"));
        ctx.nontrivial();
        check_malformed(ctx, &fs, 12, &root, size)
    });
}
