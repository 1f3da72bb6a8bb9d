//! C20: no bytes make the program panic, hang or exhaust memory.

use crate::explore::{Ctx, Explorer};
use crate::ext4_dir::{long_run, next_entry, Next};
#[cfg(feature = "ext4_fields")]
use crate::ext4_fields::{compare_descriptor, compare_inode, compare_superblock};
use crate::ext4_io::{array_members, array_spec, world};
use crate::ext4ref::{
    get, mode, put, seal_superblock, Csum, Fs, Geo, RawInode, Record, Run, Tree,
};
use crate::md_array::spec;
use crate::mdref::{superblock_offset, ArraySpec, Flavour, FLAVOURS};
use crate::simdev::{Image, SimDev};
use crate::{Check, Level};
use std::io::{Read, Seek, SeekFrom};
use sut::verif::ext4::{Ext4File, Ext4Fs, InodeNumber};
use sut::verif::md::{MdArray, MdDevice};
#[cfg(feature = "md_sb")]
use sut::verif::md::MdDeviceSuperblock;
use sut::verif::{BlockDevice, BlockDeviceReader, BlockNumber};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C20",
        level: Level::Exploration,
        rule: "one execution opens, assembles, diagnoses, mounts, lists and reads a small array or \
               filesystem with some changed bytes, in debug arithmetic (overflow panics), and must \
               end in results or errors within 64 MiB of live memory and 5 s of CPU time; \
               non-trivial if the bytes are not the sound ones",
        assumptions: &["bytes other than those of the enumerated changes do not matter"],
        note: "Every value of every metadata byte, boundary values of every field in pairs (chosen \
               ones in triples) and every truncation, on the enumerated arrays and filesystems.",
        run,
    }]
}

/// Small, so that a walk ends soon even if the file claims to be large.
const BLOCKS: usize = 10;
const ENTRIES: usize = 24;

fn walk_file<D: BlockDevice + Read + Seek>(ctx: &Ctx, fs: &mut Ext4Fs<D>, ino: u32) {
    let file = match fs.open_file(InodeNumber(ino)) {
        Ok(file) => file,
        Err(e) => return ctx.obs(&e.kind()),
    };
    ctx.step();
    match file {
        Ext4File::RegularFile(mut file) => {
            ctx.obs(&file.file_size_bytes());
            let size = fs.block_size();
            if size > 1 << 20 {
                return;
            }
            let mut buf = vec![0; size];
            let _ = file.read_next_block(&mut buf[..size / 2]);
            let _ = file.read_next_block(&mut []);
            let mut failed = 0;
            for _ in 0..BLOCKS {
                ctx.step();
                match file.read_next_block(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => ctx.obs(&buf[n - 1]),
                    Err(e) => {
                        ctx.obs(&e.kind());
                        failed += 1;
                        if failed == 3 {
                            break;
                        }
                    }
                }
            }
        }
        Ext4File::Directory(mut dir) => {
            let mut failed = 0;
            for _ in 0..ENTRIES {
                ctx.step();
                match next_entry(&mut dir) {
                    Next::End => break,
                    Next::Entry(entry) => ctx.obs(&entry),
                    Next::Error(e) => {
                        ctx.obs(&e);
                        failed += 1;
                        if failed == 3 {
                            break;
                        }
                    }
                }
            }
        }
        #[allow(unreachable_patterns)]
        _ => ctx.obs(&0),
    }
}

fn walk_fs<D: BlockDevice + Read + Seek>(ctx: &Ctx, device: D) {
    ctx.step();
    let mut fs = match Ext4Fs::open(device) {
        Ok(fs) => fs,
        Err(e) => return ctx.obs(&e.kind()),
    };
    ctx.obs(&fs.block_size());
    match fs.read_root_inode() {
        // The bytes do not matter: everything is asked for, nothing is compared.
        Ok(_inode) => {
            #[cfg(feature = "ext4_fields")]
            let _ = compare_inode(&[0; 256], &_inode);
        }
        Err(e) => ctx.obs(&e.kind()),
    }
    if let Ok(mut fs) = fs.try_clone() {
        for ino in [0, 1, u32::MAX] {
            walk_file(ctx, &mut fs, ino);
        }
    }
    for ino in [2, 11, 12, 13, 14, 16, 17, 33] {
        walk_file(ctx, &mut fs, ino);
    }
}

fn walk_image(ctx: &Ctx, image: &Image) {
    #[cfg(feature = "ext4_fields")]
    if image.size >= 2048 {
        let mut raw = [0; 1024];
        image.read(1024, &mut raw);
        let _ = compare_superblock(&raw);
    }
    walk_fs(ctx, SimDev::new(image.clone(), 512));
}

fn walk_array(ctx: &Ctx, images: &[Image]) {
    let mut devices = Vec::new();
    for (i, image) in images.iter().enumerate() {
        ctx.step();
        match MdDevice::from_block_device(SimDev::new(image.clone(), 512), Some(format!("/dev/{i}"))) {
            Ok(device) => devices.push(device),
            Err(e) => ctx.obs(&e.kind()),
        }
    }
    #[cfg(feature = "md_sb")]
    for device in &devices {
        ctx.obs(&format!("{:?} {}", device.id, device.id));
        let MdDeviceSuperblock::Superblock(sb) = device.superblock.as_ref() else {
            continue;
        };
        ctx.obs(&(sb.valid(), sb.major_version(), sb.minor_version(), sb.device_role_index()));
        ctx.obs(&sb.array_name().map(|n| n.len()));
        ctx.obs(&(sb.sectors_per_device().0, sb.chunk_size().0, sb.raid_device_count().0));
        let text = format!(
            "{:?} {} {:?} {:?} {:?} {:?}",
            sb.array_uuid(),
            sb.array_uuid(),
            sb.algorithm(),
            sb.reshape_status(),
            sb.data_offset(),
            sb.event_count(),
        );
        ctx.obs(&text);
        for role in sb.device_roles() {
            ctx.obs(&(role.is_valid(), role.is_spare(), role.is_faulty(), role.is_journal(), role.is_invalid()));
            ctx.obs(&role.device_number().map(|n| n.0));
        }
    }
    ctx.step();
    let mut array = MdArray::open(devices);
    let diagnosis = array.diagnose();
    let text = format!("{diagnosis:#?}");
    ctx.obs(&text.len());
    let count = match array.block_count() {
        Ok(count) => count.0,
        Err(_) => 4,
    };
    ctx.obs(&count);
    let mut buf = [0; 520];
    for len in [0, 1, 511, 512, 513] {
        let _ = array.read_block(BlockNumber(0), &mut buf[..len]);
    }
    for block in [
        1,
        2,
        7,
        9,
        count / 2,
        count.wrapping_sub(1),
        count,
        u64::MAX / 512,
        u64::MAX / 512 + 1,
        u64::MAX - 1,
        u64::MAX,
    ] {
        ctx.step();
        ctx.obs(&array.read_block(BlockNumber(block), &mut buf[..512]).map_err(|e| e.kind()));
    }
    let Ok(clone) = array.try_clone() else { return };
    let mut reader = BlockDeviceReader::new(clone);
    for to in [
        SeekFrom::Start(u64::MAX),
        SeekFrom::End(0),
        SeekFrom::End(-1),
        SeekFrom::End(i64::MIN),
        SeekFrom::End(i64::MAX),
        SeekFrom::Current(i64::MAX),
        SeekFrom::Current(i64::MIN),
        SeekFrom::Start(1023),
    ] {
        ctx.step();
        ctx.obs(&reader.seek(to).map_err(|e| e.kind()));
        ctx.obs(&reader.read(&mut buf[..3]).map_err(|e| e.kind()));
    }
    walk_fs(ctx, reader);
}

/// The members of a small RAID 6 with a filesystem on it.
fn members(flavour: Flavour, level: u32, layout: u32) -> (ArraySpec, Vec<Image>) {
    let w = world(0, Csum::None, 0);
    let base = array_spec(level, layout, 4, 4, &w.image);
    let spec = spec(flavour, level, layout, 4, 4, base.size, 24, 1);
    let members = array_members(&spec, &w.image);
    (spec, members)
}

fn few(width: usize, old: u64) -> Vec<u64> {
    let max = if width == 8 { u64::MAX } else { (1 << (8 * width)) - 1 };
    let mut values: Vec<u64> = [
        0,
        1,
        2,
        3,
        max,
        max - 1,
        max / 2,
        max / 2 + 1,
        old.wrapping_add(1) & max,
        old.wrapping_sub(1) & max,
    ]
    .into();
    if width >= 4 {
        values.extend([0xffff, 0x10000, 1 << 20]);
    }
    values.sort_unstable();
    values.dedup();
    values.retain(|v| *v != old);
    values
}

/// Values of a byte: all, or those next to boundaries.
fn byte_values(thorough: bool, old: u8) -> Vec<u8> {
    let all: Vec<u8> = if thorough {
        (0..=255).collect()
    } else {
        vec![0, 1, 2, 3, 4, 0x10, 0x20, 0x40, 0x7f, 0x80, 0xfe, 0xff, old ^ 1, old ^ 0x80, old.wrapping_add(1)]
    };
    let mut all: Vec<u8> = all.into_iter().filter(|v| *v != old).collect();
    all.sort_unstable();
    all.dedup();
    all
}

fn change(image: &mut Image, at: u64, width: usize, value: u64) {
    image.write(at, &value.to_le_bytes()[..width]);
}

/// Chooses values for up to the remaining number of deviations of the fields.
fn choose_fields(ctx: &Ctx, fields: &[(u64, usize)], old: impl Fn(u64, usize) -> u64) -> Vec<(u64, usize, u64)> {
    let mut changes = Vec::new();
    // One decision per change: which field (none: enough), then its value.
    let mut from = 0;
    while ctx.deviations_left() > 0 && from < fields.len() {
        let n = ctx.deviate(fields.len() - from + 1);
        if n == 0 {
            break;
        }
        let (at, width) = fields[from + n - 1];
        from += n;
        let value = *ctx.pick(&few(width, old(at, width)));
        changes.push((at, width, value));
    }
    if !changes.is_empty() {
        ctx.nontrivial();
    }
    changes
}

/// Fields of version 1 superblocks: offset and width.
const V1: [(u64, usize); 31] = [
    (0x00, 4),
    (0x04, 4),
    (0x08, 4),
    (0x40, 8),
    (0x48, 4),
    (0x4c, 4),
    (0x50, 8),
    (0x58, 4),
    (0x5c, 4),
    (0x60, 4),
    (0x64, 4),
    (0x68, 8),
    (0x70, 4),
    (0x74, 4),
    (0x78, 4),
    (0x7c, 4),
    (0x80, 8),
    (0x88, 8),
    (0x90, 8),
    (0x98, 8),
    (0xa0, 4),
    (0xb8, 1),
    (0xb9, 1),
    (0xc8, 8),
    (0xd0, 8),
    (0xd8, 4),
    (0xdc, 4),
    (0x100, 2),
    (0x102, 2),
    (0x104, 2),
    (0x106, 2),
];

/// Those that say what the array is like and where the member belongs.
const V1_CHOSEN: [(u64, usize); 14] = [
    (0x08, 4),
    (0x48, 4),
    (0x4c, 4),
    (0x50, 8),
    (0x58, 4),
    (0x5c, 4),
    (0x68, 8),
    (0x70, 4),
    (0x74, 4),
    (0x78, 4),
    (0x80, 8),
    (0xa0, 4),
    (0xdc, 4),
    (0x100, 2),
];
const V0_CHOSEN: [u64; 13] = [3, 7, 8, 9, 10, 16, 17, 18, 64, 65, 128, 131, 992];

/// Words of version 0 superblocks.
fn v0_fields() -> Vec<(u64, usize)> {
    (0..10)
        .chain(13..20)
        .chain(32..48)
        .chain(64..72)
        .chain([128, 129, 130, 131, 132, 160, 192, 224, 991, 992, 993, 994, 995, 996])
        .map(|w| (w * 4, 4))
        .collect()
}

fn run_md(e: &mut Explorer) {
    let thorough = e.thorough;
    let bases: Vec<(ArraySpec, Vec<Image>)> = FLAVOURS.iter().map(|f| members(*f, 6, 2)).collect();
    let bases = &bases;
    let places: Vec<(Vec<usize>, usize)> = bases
        .iter()
        .map(|(spec, _)| match spec.flavour {
            // The generic parts and the descriptors; what is between is unused.
            Flavour::V0Little | Flavour::V0Big => ((0..4096).collect(), 4096),
            _ => ((0..256 + 16).chain([256 + 2 * 383, 256 + 2 * 383 + 1]).collect(), 1024),
        })
        .collect();
    let places = &places;
    e.family("md: one byte", &|ctx: &Ctx| {
        let kind = ctx.choose(bases.len());
        let (spec, images) = &bases[kind];
        let at = *ctx.pick(&places[kind].0) as u64;
        let all = ctx.flag();
        let mut images = images.clone();
        let base = superblock_offset(spec.flavour, spec.device_size);
        let old = images[0].bytes(base + at, 1)[0];
        let value = *ctx.pick(&byte_values(thorough, old));
        for image in if all { &mut images[..] } else { &mut images[..1] } {
            change(image, base + at, 1, u64::from(value));
        }
        ctx.nontrivial();
        ctx.note(|| format!("{:?}: byte {at:#x} is {value:#x} on {}", spec.flavour, if all { "all" } else { "one" }));
        walk_array(ctx, &images);
        Ok(())
    });

    let fields = |ctx: &Ctx, chosen: bool| {
        let kind = ctx.choose(bases.len());
        let (spec, images) = &bases[kind];
        let base = superblock_offset(spec.flavour, spec.device_size);
        let all = ctx.flag();
        let big = spec.flavour == Flavour::V0Big;
        let v0 = big || spec.flavour == Flavour::V0Little;
        let fields = match (chosen, v0) {
            (true, true) => V0_CHOSEN.map(|w| (w * 4, 4)).to_vec(),
            (true, false) => V1_CHOSEN.to_vec(),
            (false, true) => v0_fields(),
            (false, false) => V1.to_vec(),
        };
        let original = images[0].clone();
        let changes = choose_fields(ctx, &fields, |at, width| {
            let mut bytes = original.bytes(base + at, width);
            if big {
                bytes.reverse();
            }
            get(&bytes, 0, width)
        });
        let mut images = images.clone();
        for image in if all { &mut images[..] } else { &mut images[..1] } {
            for (at, width, value) in &changes {
                let mut bytes = value.to_le_bytes()[..*width].to_vec();
                if big {
                    bytes.reverse();
                }
                image.write(base + at, &bytes);
            }
        }
        ctx.note(|| format!("{:?}: {changes:x?} on {}", spec.flavour, if all { "all" } else { "one" }));
        walk_array(ctx, &images);
        Ok(())
    };
    e.bounded("md: fields", 2, &|ctx: &Ctx| fields(ctx, false));
    if thorough {
        e.bounded("md: chosen fields", 3, &|ctx: &Ctx| fields(ctx, true));
    }

    e.family("md: levels and layouts", &|ctx: &Ctx| {
        let flavour = *ctx.pick(&FLAVOURS);
        let level = *ctx.pick(&[5, 6]);
        let layout = ctx.choose(24) as u32;
        let images = bases.iter().find(|(s, _)| s.flavour == flavour).unwrap();
        let (spec, images) = (&images.0, images.1.clone());
        let base = superblock_offset(flavour, spec.device_size);
        let mut images = images;
        let disks = *ctx.pick(&[0u32, 1, 2, 3, 4, 5, 6, 0x7fff_ffff, u32::MAX]);
        let chunk = *ctx.pick(&[0u32, 1, 2, 3, 4, 5, 8, 1 << 22, 1 << 23, 1 << 31, u32::MAX]);
        let reshape = ctx.choose(4);
        for image in &mut images {
            let v0 = matches!(flavour, Flavour::V0Little | Flavour::V0Big);
            let mut set = |at: u64, value: u32| {
                let bytes = if flavour == Flavour::V0Big { value.to_be_bytes() } else { value.to_le_bytes() };
                image.write(base + at, &bytes);
            };
            // Level, layout, chunk size (in bytes for version 0) and disks.
            let at: [u64; 4] = if v0 { [7 * 4, 64 * 4, 65 * 4, 10 * 4] } else { [0x48, 0x4c, 0x58, 0x5c] };
            set(at[0], level);
            set(at[1], layout);
            set(at[2], if v0 { chunk.wrapping_mul(512) } else { chunk });
            set(at[3], disks);
            if reshape > 0 {
                let position = [0, u32::MAX, 64][reshape - 1];
                if v0 {
                    set(3 * 4, 91);
                } else {
                    set(0x08, 4);
                    set(0x64, level);
                    set(0x68, position);
                    set(0x6c, if position == u32::MAX { position } else { 0 });
                    set(0x70, [0, i32::MIN as u32, 1][reshape - 1]);
                    set(0x74, layout);
                    set(0x78, chunk);
                }
            }
        }
        ctx.nontrivial();
        ctx.note(|| format!("{flavour:?}: level {level} layout {layout} disks {disks} chunk {chunk} reshape {reshape}"));
        walk_array(ctx, &images);
        Ok(())
    });

    e.family("md: roles", &|ctx: &Ctx| {
        // What is in each slot and which slot each member says it has.
        let flavour = *ctx.pick(&[Flavour::V1_2, Flavour::V1_0]);
        let (spec, images) = bases.iter().find(|(s, _)| s.flavour == flavour).unwrap();
        let base = superblock_offset(flavour, spec.device_size);
        let mut images = images.clone();
        let count = *ctx.pick(&[0u32, 1, 4, 384, 385, 0xffff, 0x10000, u32::MAX]);
        let numbers = [0u32, 383, 384, u32::MAX, 1, 0xffff];
        let values = [0u16, 4, 0xff00, 0xfffe, 0xffff, 1, 0xfeff, 0xfffd];
        // Fewer values if three members are changed.
        let n = if thorough { ctx.range(2, 3) } else { 2 };
        for image in &mut images[..n] {
            let number = *ctx.pick(&numbers[..if n == 3 { 4 } else { 6 }]);
            let role = *ctx.pick(&values[..if n == 3 { 5 } else { 8 }]);
            image.write(base + 0xdc, &count.to_le_bytes());
            image.write(base + 0xa0, &number.to_le_bytes());
            image.write(base + 0x100, &role.to_le_bytes());
        }
        ctx.nontrivial();
        walk_array(ctx, &images);
        Ok(())
    });

    e.family("md: sizes of devices", &|ctx: &Ctx| {
        let kind = ctx.choose(bases.len());
        let (spec, images) = &bases[kind];
        let steps = spec.device_size / 512;
        let size = ctx.choose(steps as usize + 1) as u64 * 512 + *ctx.pick(&[0u64, 1, 511]);
        let all = ctx.flag();
        let mut images = images.clone();
        for image in if all { &mut images[..] } else { &mut images[..1] } {
            *image = image.resized(size);
        }
        ctx.nontrivial();
        ctx.note(|| format!("{:?}: {size} bytes on {}", spec.flavour, if all { "all" } else { "one" }));
        walk_array(ctx, &images);
        Ok(())
    });

    e.family("md: block sizes", &|ctx: &Ctx| {
        // Devices with other block sizes than the array has.
        let kind = ctx.choose(bases.len());
        let (_, images) = &bases[kind];
        let bs = *ctx.pick(&[1u32, 2, 256, 511, 512, 513, 1000, 1024, 4096, 65536, 1 << 20, 1 << 31, u32::MAX]);
        let other = *ctx.pick(&[512u32, 4096]);
        let devices: Vec<MdDevice<SimDev>> = images
            .iter()
            .enumerate()
            .filter_map(|(i, image)| {
                md_try(SimDev::new(image.clone(), if i == 0 { bs } else { other }), i)
            })
            .collect();
        ctx.nontrivial();
        ctx.note(|| format!("block size {bs}, others {other}"));
        let mut array = MdArray::open(devices);
        ctx.obs(&format!("{:?}", array.diagnose()).len());
        let mut buf = [0; 512];
        for block in 0..8 {
            ctx.step();
            ctx.obs(&array.read_block(BlockNumber(block), &mut buf).map_err(|e| e.kind()));
        }
        Ok(())
    });

    e.family("md: uniform devices", &|ctx: &Ctx| {
        let size = *ctx.pick(&[0u64, 511, 512, 4096, 8192, 12287, 12288, 16384, 65535, 65536, 131072]);
        let byte = ctx.choose(256) as u8;
        let n = ctx.range(0, 3);
        let image = Image::from_bytes(&vec![byte; size as usize]);
        ctx.nontrivial();
        walk_array(ctx, &vec![image.clone(); n]);
        walk_image(ctx, &image);
        Ok(())
    });
}

fn md_try(dev: SimDev, i: usize) -> Option<MdDevice<SimDev>> {
    MdDevice::from_block_device(dev, Some(format!("/dev/{i}"))).ok()
}

// ---------------------------------------------------------------- ext4

/// A filesystem with a directory (2), a shallow file (12), a deep one (13)
/// and a deep directory (14), and the places of its metadata blocks.
struct Base {
    fs: Fs,
    /// Node and directory blocks.
    blocks: Vec<(&'static str, u64)>,
}

fn base(log_bs: u32, csum: Csum) -> Base {
    let mut fs = Fs::new(Geo {
        blocks: 64,
        inodes_per_group: 16,
        ..Geo::small(log_bs, csum)
    });
    let bs = fs.bs() as u64;
    let mut blocks = Vec::new();
    let records: Vec<Vec<Record>> = vec![
        vec![
            Record::new(2, b".", 2),
            Record::new(2, b"..", 2),
            Record::new(12, b"file", 1),
            Record::new(0, b"gone", 1),
        ],
        vec![Record::new(13, b"deep", 1), Record::new(14, &[b'd'; 200], 2)],
    ];
    let first = fs.next;
    fs.add_dir(2, &records, false);
    blocks.push(("directory", first));
    let data = fs.alloc(8);
    let leaf = |logical: u32, len: u16, start: u64, unwritten: bool| Run {
        logical,
        len,
        start,
        unwritten,
    };
    fs.add_file(
        12,
        mode::REG | 0o644,
        4 * bs - 10,
        &Tree::Leaf(vec![leaf(0, 2, data, false), leaf(2, 1, data + 3, true), leaf(3, 1, data + 5, false)]),
    );
    let node = fs.alloc(2);
    blocks.push(("index node", node));
    blocks.push(("leaf node", node + 1));
    fs.add_file(
        13,
        mode::REG | 0o644,
        3 * bs,
        &Tree::Index(vec![(
            0,
            node,
            Tree::Index(vec![(
                0,
                node + 1,
                Tree::Leaf(vec![leaf(0, 1, data, false), leaf(1, 2, data + 3, false)]),
            )]),
        )]),
    );
    Base { fs, blocks }
}

/// Important fields of superblocks: offset and width.
const SUPER: [(u64, usize); 26] = [
    (0x00, 4),
    (0x04, 4),
    (0x14, 4),
    (0x18, 4),
    (0x1c, 4),
    (0x20, 4),
    (0x24, 4),
    (0x28, 4),
    (0x38, 2),
    (0x3c, 2),
    (0x48, 4),
    (0x4c, 4),
    (0x54, 4),
    (0x58, 2),
    (0x5a, 2),
    (0x5c, 4),
    (0x60, 4),
    (0x64, 4),
    (0xce, 2),
    (0xfc, 1),
    (0xfe, 2),
    (0x150, 4),
    (0x154, 4),
    (0x15c, 2),
    (0x174, 1),
    (0x175, 1),
];

fn with_superblock(image: &Image, edit: impl FnOnce(&mut [u8; 1024])) -> Image {
    let mut sb = [0; 1024];
    image.read(1024, &mut sb);
    edit(&mut sb);
    seal_superblock(&mut sb);
    let mut image = image.clone();
    image.write(1024, &sb);
    image
}

fn run_ext4(e: &mut Explorer) {
    let thorough = e.thorough;
    let bases: Vec<Base> = [Csum::None, Csum::Uuid].iter().map(|c| base(0, *c)).collect();
    let bases = &bases;
    let large: Vec<Base> = [0, 2, 6].iter().map(|log_bs| base(*log_bs, Csum::None)).collect();
    let large = &large;

    e.family("ext4: one byte of the superblock", &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let at = ctx.choose(1024);
        let old = base.fs.image.bytes(1024 + at as u64, 1)[0];
        let value = *ctx.pick(&byte_values(thorough, old));
        ctx.nontrivial();
        ctx.note(|| format!("byte {at:#x} is {value:#x}"));
        walk_image(ctx, &with_superblock(&base.fs.image, |sb| sb[at] = value));
        Ok(())
    });

    e.bounded("ext4: fields of the superblock", if thorough { 3 } else { 2 }, &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let changes = choose_fields(ctx, &SUPER, |at, width| {
            get(&base.fs.image.bytes(1024 + at, width), 0, width)
        });
        ctx.note(|| format!("{changes:x?}"));
        let image = with_superblock(&base.fs.image, |sb| {
            for (at, width, value) in &changes {
                put(sb, *at as usize, *width, *value);
            }
        });
        walk_image(ctx, &image);
        Ok(())
    });

    if thorough {
        e.bounded("ext4: words of the superblock", 2, &|ctx: &Ctx| {
            let fields: Vec<(u64, usize)> = (0..256).map(|w| (w * 4, 4)).collect();
            let image = &bases[0].fs.image;
            let changes = choose_fields(ctx, &fields, |at, width| get(&image.bytes(1024 + at, width), 0, width));
            ctx.note(|| format!("{changes:x?}"));
            let image = with_superblock(image, |sb| {
                for (at, width, value) in &changes {
                    put(sb, *at as usize, *width, *value);
                }
            });
            walk_image(ctx, &image);
            Ok(())
        });
    }

    e.bounded("ext4: fields of group descriptors", 2, &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let fields: Vec<(u64, usize)> = (0..16).map(|w| (w * 4, 4)).chain([(0x12, 2), (0x08, 8), (0x28, 8)]).collect();
        let start = base.fs.descriptor_at(0);
        let changes = choose_fields(ctx, &fields, |at, width| {
            get(&base.fs.image.bytes(start + at, width), 0, width)
        });
        ctx.note(|| format!("{changes:x?}"));
        let mut image = base.fs.image.clone();
        for (at, width, value) in &changes {
            change(&mut image, start + at, *width, *value);
        }
        #[cfg(feature = "ext4_fields")]
        let _ = compare_descriptor(&image.bytes(start, 64));
        walk_image(ctx, &image);
        Ok(())
    });

    // Places next to every power of two, and so next to where the position
    // in bytes no longer fits.
    e.family("ext4: far places", &|ctx: &Ctx| {
        let base = ctx.pick(large);
        let exponent = ctx.choose(65) as u32;
        let below = if thorough { 20 } else { 6 };
        let delta = ctx.choose(below + 2) as u64;
        let place = 1u64.checked_shl(exponent).unwrap_or(0).wrapping_add(1).wrapping_sub(delta);
        let what = ctx.choose(3);
        ctx.nontrivial();
        ctx.note(|| format!("{} is at block {place:#x}", ["the inode table", "an extent", "a node"][what]));
        ctx.obs(&(what, place));
        let mut fs = base.fs.clone();
        if what == 0 {
            let start = fs.descriptor_at(0);
            change(&mut fs.image, start + 0x08, 4, place & 0xffff_ffff);
            change(&mut fs.image, start + 0x28, 4, place >> 32);
        } else {
            // The low and the high half are the other way round in nodes.
            let ino = [12, 13][what - 1];
            let start = fs.inode_at(ino);
            let mut inode = RawInode(fs.image.bytes(start, 256));
            if what == 1 {
                inode.set(0x34 + 6, 2, place >> 32 & 0xffff);
                inode.set(0x34 + 8, 4, place & 0xffff_ffff);
            } else {
                inode.set(0x34 + 4, 4, place & 0xffff_ffff);
                inode.set(0x34 + 8, 2, place >> 32 & 0xffff);
            }
            fs.write_inode(ino, &inode);
        }
        if ctx.flag() {
            walk_fs(ctx, BlockDeviceReader::new(SimDev::new(fs.image, 512)));
        } else {
            walk_fs(ctx, SimDev::new(fs.image, 512));
        }
        Ok(())
    });

    e.family("ext4: one byte of an inode", &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let ino = *ctx.pick(&[2, 12, 13]);
        let at = ctx.choose(256);
        let start = base.fs.inode_at(ino);
        let old = base.fs.image.bytes(start + at as u64, 1)[0];
        let value = *ctx.pick(&byte_values(thorough, old));
        let mut inode = RawInode(base.fs.image.bytes(start, 256));
        inode.0[at] = value;
        let mut fs = base.fs.clone();
        fs.write_inode(ino, &inode);
        ctx.nontrivial();
        ctx.note(|| format!("byte {at:#x} of inode {ino} is {value:#x}"));
        walk_image(ctx, &fs.image);
        Ok(())
    });

    e.bounded("ext4: fields of an inode", if thorough { 3 } else { 2 }, &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let ino = *ctx.pick(&[2, 12, 13]);
        // Mode, size, flags, high size, extra size and the extent tree.
        let fields: Vec<(u64, usize)> = [(0x00, 2), (0x04, 4), (0x20, 4), (0x6c, 4), (0x80, 2)]
            .into_iter()
            .chain([(0x28, 2), (0x2a, 2), (0x2c, 2), (0x2e, 2), (0x30, 4)])
            .chain((0..4).flat_map(|i| {
                let at = 0x34 + 12 * i;
                [(at, 4), (at + 4, 2), (at + 6, 2), (at + 4, 4), (at + 8, 4)]
            }))
            .collect();
        let start = base.fs.inode_at(ino);
        let changes = choose_fields(ctx, &fields, |at, width| {
            get(&base.fs.image.bytes(start + at, width), 0, width)
        });
        ctx.note(|| format!("inode {ino}: {changes:x?}"));
        let mut inode = RawInode(base.fs.image.bytes(start, 256));
        for (at, width, value) in &changes {
            inode.set(*at as usize, *width, *value);
        }
        let mut fs = base.fs.clone();
        fs.write_inode(ino, &inode);
        walk_image(ctx, &fs.image);
        Ok(())
    });

    e.family("ext4: one byte of a metadata block", &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let (what, block) = *ctx.pick(&base.blocks);
        let at = ctx.choose(1024);
        let mut bytes = base.fs.image.bytes(block * 1024, 1024);
        let value = *ctx.pick(&byte_values(thorough, bytes[at]));
        bytes[at] = value;
        let mut fs = base.fs.clone();
        if what == "directory" {
            fs.seal_dir(2, generation(&base.fs, 2), &mut bytes);
        } else {
            fs.seal_node(13, generation(&base.fs, 13), &mut bytes);
        }
        fs.write_block(block, &bytes);
        ctx.nontrivial();
        ctx.note(|| format!("byte {at:#x} of the {what} is {value:#x}"));
        walk_image(ctx, &fs.image);
        Ok(())
    });

    e.bounded("ext4: fields of a metadata block", if thorough { 3 } else { 2 }, &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let (what, block) = *ctx.pick(&base.blocks);
        let fields: Vec<(u64, usize)> = if what == "directory" {
            [0, 12, 24, 40]
                .into_iter()
                .flat_map(|at| [(at, 4), (at + 4, 2), (at + 6, 1), (at + 7, 1), (at + 6, 2)])
                .collect()
        } else {
            [(0, 2), (2, 2), (4, 2), (6, 2)]
                .into_iter()
                .chain((0..3).flat_map(|i| {
                    let at = 12 + 12 * i;
                    [(at, 4), (at + 4, 2), (at + 6, 2), (at + 4, 4), (at + 8, 4)]
                }))
                .collect()
        };
        let mut bytes = base.fs.image.bytes(block * 1024, 1024);
        let changes = choose_fields(ctx, &fields, |at, width| get(&bytes, at as usize, width));
        ctx.note(|| format!("{what}: {changes:x?}"));
        for (at, width, value) in &changes {
            put(&mut bytes, *at as usize, *width, *value);
        }
        let mut fs = base.fs.clone();
        if what == "directory" {
            fs.seal_dir(2, generation(&base.fs, 2), &mut bytes);
        } else {
            fs.seal_node(13, generation(&base.fs, 13), &mut bytes);
        }
        fs.write_block(block, &bytes);
        walk_image(ctx, &fs.image);
        Ok(())
    });

    e.family("ext4: sizes of the device", &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let step = if thorough { 16 } else { 64 };
        let size = ctx.choose((base.fs.image.size / step) as usize + 1) as u64 * step;
        let delta = *ctx.pick(&[0i64, -1, 1]);
        let size = size.saturating_add_signed(delta).min(base.fs.image.size);
        ctx.nontrivial();
        ctx.note(|| format!("{size} bytes"));
        walk_image(ctx, &base.fs.image.resized(size));
        Ok(())
    });

    e.family("ext4: features", &|ctx: &Ctx| {
        // Every pair of feature bits toggled, with an unknown revision or not.
        let base = ctx.pick(bases);
        let words = [0x5c, 0x60, 0x64];
        let a = ctx.choose(96);
        let b = ctx.range(a, 95);
        let image = with_superblock(&base.fs.image, |sb| {
            for bit in [a, b].iter().take(if a == b { 1 } else { 2 }) {
                sb[words[bit / 32] + bit % 32 / 8] ^= 1 << (bit % 8);
            }
        });
        ctx.nontrivial();
        walk_image(ctx, &image);
        Ok(())
    });

    e.family("ext4: block sizes of the device", &|ctx: &Ctx| {
        let base = ctx.pick(bases);
        let bs = *ctx.pick(&[1u32, 2, 256, 511, 512, 513, 1000, 1024, 4096, 65536, 1 << 20, 1 << 31, u32::MAX]);
        ctx.nontrivial();
        walk_fs(ctx, SimDev::new(base.fs.image.clone(), bs));
        walk_fs(ctx, BlockDeviceReader::new(SimDev::new(base.fs.image.clone(), bs)));
        Ok(())
    });
}

fn generation(fs: &Fs, ino: u32) -> u32 {
    get(&fs.image.bytes(fs.inode_at(ino) + 0x64, 4), 0, 4) as u32
}

/// What recursion would not survive. Optimised code may have no recursion
/// where the source has, so this is explored without optimisation too.
fn run_stack(e: &mut Explorer, optimised: bool) {
    e.family("ext4: long runs of unused entries", &|ctx: &Ctx| {
        let (fs, what) = long_run(ctx, optimised);
        ctx.nontrivial();
        ctx.note(|| what);
        walk_image(ctx, &fs.image);
        Ok(())
    });

    let fs = base(6, Csum::Uuid);
    let fs = &fs.fs.image;
    let images = [Flavour::V1_2, Flavour::V1_0, Flavour::V0Little].map(|flavour| {
        members(flavour, 6, 2).1.remove(0)
    });
    let images = &images;
    e.family("storms of interruptions", &|ctx: &Ctx| {
        // A read is interrupted very often, or all return one byte.
        let what = ctx.choose(5);
        let nth = ctx.choose(40) as u64;
        let (times, most) = *ctx.pick(&[(300_000, usize::MAX), (300_000, 1), (0, 1)]);
        if times == 0 && nth > 0 {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.note(|| format!("read {nth} of {what} is interrupted {times} times"));
        let device = SimDev::new(if what < 2 { fs } else { &images[what - 2] }.clone(), 512);
        device.shared.disturb(nth, times, most);
        match what {
            0 => walk_fs(ctx, device),
            1 => walk_fs(ctx, BlockDeviceReader::new(device)),
            _ => match MdDevice::from_block_device(device, None::<&str>) {
                Ok(device) => {
                    ctx.obs(&MdArray::open([device]).diagnose().missing_superblock_problem.is_some())
                }
                Err(e) => ctx.obs(&e.kind()),
            },
        }
        Ok(())
    });
}

fn run(e: &mut Explorer) {
    e.limit_memory(64 << 20);
    e.limit_cpu(5);
    if std::env::var_os("MDR_UNOPTIMISED").is_some() {
        return run_stack(e, false);
    }
    run_stack(e, true);
    run_md(e);
    run_ext4(e);
}
