//! C02 and C03: reading arrays that are healthy, damaged or incomplete.

use crate::explore::{Ctx, Explorer};
use crate::mdref::*;
use crate::simdev::{Failure, Fault, Image, SimDev};
use crate::{Check, Level};
use std::io::Read;
use sut::verif::md::{MdArray, MdDevice};
use sut::verif::{BlockDevice, BlockDeviceReader, BlockNumber};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C02",
            level: Level::Exploration,
            rule: "One execution builds the members of one array as mdadm would, opens them, and compares the size and every block (of huge arrays: every block of chosen stripes) with the data stored. Non-trivial: at least one block was compared.",
            assumptions: &["The reference builder places superblocks, data and parity as Linux MD and mdadm do."],
            note: "Every combination of the listed superblock versions, layouts, device counts, chunk sizes, data offsets, member block sizes, sizes and listing orders, each with every array block compared with the data the reference builder stored. Bounded by those lists; arrays under reshape are out of scope.",
            run: c02,
        },
        Check {
            id: "C03",
            level: Level::Faults,
            rule: "One execution is one healthy array with one damage: a changed byte on one member, members missing, listed twice, truncated or unreadable in a range, or up to two (three) faults of device reads. All blocks are read and compared. Non-trivial: the damage or a fault took place.",
            assumptions: &["The reference builder places superblocks, data and parity as Linux MD and mdadm do.", "At most one member is silently corrupted in a stripe (a single parity cannot notice everything beyond that)."],
            note: "Exhaustive enumeration of damage positions and fault places within the stated bounds on the real read path; reads must be right or fail, and intact stripes must stay readable.",
            run: c03,
        },
    ]
}

pub type Array = MdArray<SimDev>;

pub fn device(image: &Image, block_size: u32, name: usize) -> MdDevice<SimDev> {
    open_device(SimDev::new(image.clone(), block_size), name)
}

pub fn open_device(dev: SimDev, name: usize) -> MdDevice<SimDev> {
    MdDevice::from_block_device(dev, Some(format!("device{name}")))
        .unwrap_or_else(|e| panic!("opening member {name} failed: {e}"))
}

pub fn open(images: &[Image], block_size: u32, order: &[usize]) -> Array {
    MdArray::open(order.iter().map(|i| device(&images[*i], block_size, *i)))
}

pub fn read_block(array: &mut Array, block: u64) -> Result<[u8; 512], std::io::Error> {
    let mut buf = [0xeeu8; 512];
    let n = array.read_block(BlockNumber(block), &mut buf)?;
    if n != 512 {
        return Err(std::io::Error::other(format!("harness: returned {n} bytes")));
    }
    Ok(buf)
}

fn want_block(array: &mut Array, spec: &ArraySpec, block: u64) -> Result<(), String> {
    let mut buf = [0xeeu8; 512];
    match array.read_block(BlockNumber(block), &mut buf) {
        Ok(512) if buf == data_sector(spec.seed, block) => Ok(()),
        Ok(512) => Err(format!(
            "{spec:?}: block {block} has wrong data ({})",
            whose(spec, block, &buf)
        )),
        Ok(n) => Err(format!("{spec:?}: block {block}: {n} bytes were returned")),
        Err(e) => Err(format!("{spec:?}: block {block} cannot be read: {e}")),
    }
}

/// Which other block this data belongs to, to explain a failure.
fn whose(spec: &ArraySpec, block: u64, data: &[u8; 512]) -> String {
    let end = spec.array_sectors();
    for other in block.saturating_sub(4096)..end.min(block + 4096) {
        if data_sector(spec.seed, other) == *data {
            return format!("that of block {other}");
        }
    }
    if data.iter().all(|b| *b == 0) {
        return "zeros".into();
    }
    "not that of any block nearby".into()
}

/// A member size that leaves room for the superblocks.
pub fn fit(flavour: Flavour, data_end: u64) -> u64 {
    let data_end = data_end * 512;
    match flavour {
        Flavour::V0Little | Flavour::V0Big => data_end.div_ceil(65536) * 65536 + 65536,
        Flavour::V1_0 => (data_end + 8192).div_ceil(4096) * 4096,
        _ => data_end.div_ceil(4096) * 4096,
    }
    .max(16384)
}

#[allow(clippy::too_many_arguments)]
pub fn spec(
    flavour: Flavour,
    level: u32,
    layout: u32,
    n: u32,
    chunk: u32,
    size: u64,
    data_offset: u64,
    seed: u64,
) -> ArraySpec {
    let data_offset = match flavour {
        Flavour::V0Little | Flavour::V0Big => 0,
        Flavour::V1_0 => data_offset,
        _ => data_offset.max(16),
    };
    ArraySpec {
        flavour,
        level,
        layout,
        n,
        chunk,
        size,
        data_offset,
        device_size: fit(flavour, data_offset + size),
        seed,
    }
}

fn check_healthy(ctx: &Ctx, array: &mut Array, spec: &ArraySpec) -> Result<(), String> {
    let sectors = spec.array_sectors();
    let count = array
        .block_count()
        .map_err(|e| format!("{spec:?}: no size: {e}"))?
        .0;
    if count != sectors {
        return Err(format!("{spec:?}: {sectors} blocks, but the array says {count}"));
    }
    if array.block_size().map(|s| s.0).ok() != Some(512) {
        return Err(format!("{spec:?}: block size {:?}", array.block_size()));
    }
    for block in 0..sectors {
        want_block(array, spec, block)?;
        ctx.step();
    }
    for block in [sectors, sectors + 1, 2 * sectors, u64::MAX / 512, u64::MAX] {
        ctx.step();
        if let Ok(n) = array.read_block(BlockNumber(block), &mut [0; 512]) {
            return Err(format!(
                "{spec:?}: block {block} of {sectors} does not exist, but {n} bytes were read"
            ));
        }
    }
    Ok(())
}

fn c02(e: &mut Explorer) {
    let thorough = e.thorough;
    let max_n = if thorough { 9 } else { 6 };
    let chunks: &[u32] = if thorough { &[1, 2, 3, 8, 16, 128] } else { &[1, 2, 3, 8] };
    let offsets: &[u64] = if thorough { &[0, 1, 16, 24, 2048] } else { &[0, 17, 2048] };
    let block_sizes: &[u32] = &[512, 1024, 4096];

    e.family("small", |ctx| {
        let flavour = *ctx.pick(&FLAVOURS);
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = ctx.range(4, max_n) as u32;
        let chunk = *ctx.pick(chunks);
        let offset = match flavour {
            Flavour::V0Little | Flavour::V0Big => 0,
            _ => *ctx.pick(offsets),
        };
        let block_size = *ctx.pick(block_sizes);
        // Rest at the end that is no whole chunk (sizes of version 0 are in
        // KiB).
        let partial = match ctx.choose(if chunk > 1 { 2 } else { 1 }) {
            0 => 0,
            _ => u64::from(chunk) - 1,
        };
        let stripes = if chunk > 16 { 3 } else { u64::from(n) + 1 };
        let mut size = stripes * u64::from(chunk) + partial;
        if matches!(flavour, Flavour::V0Little | Flavour::V0Big) {
            size -= size % 2;
        }
        let spec = spec(flavour, 6, layout, n, chunk, size, offset, 1);
        // Forward, backward and rotated.
        let order: Vec<usize> = match ctx.choose(3) {
            0 => (0..n as usize).collect(),
            1 => (0..n as usize).rev().collect(),
            _ => (0..n as usize).map(|i| (i + 1) % n as usize).collect(),
        };
        ctx.obs(&(&spec, block_size, &order));
        ctx.note(|| format!("{spec:?} listed as {order:?}, member blocks of {block_size} bytes"));
        let images = spec.build();
        let mut array = open(&images, block_size, &order);
        ctx.nontrivial();
        check_healthy(ctx, &mut array, &spec)
    });

    e.family("members", |ctx| {
        // Slots need not be in the order of roles: devices that were replaced
        // have new numbers, and old numbers stay behind as unused slots.
        let flavour = *ctx.pick(&[Flavour::V1_0, Flavour::V1_1, Flavour::V1_2]);
        let layout = *ctx.pick(if thorough { &RAID6_LAYOUTS[..] } else { &[2, 4, 10, 18] });
        let n = if thorough { ctx.range(4, 5) } else { 4 };
        let roles_of = ctx.permutation(n);
        let gap = ctx.choose(n + 1);
        let spare = ctx.flag();
        let order = if thorough && n == 4 {
            ctx.permutation(n + usize::from(spare))
        } else {
            (0..n + usize::from(spare)).rev().collect()
        };
        let dead = *ctx.pick(&[0xffffu16, 0xfffe]);
        let spec = spec(flavour, 6, layout, n as u32, 2, 2 * (n as u64 + 1), 24, 2);
        // Slot numbers with one unused slot in between.
        let slot = |i: usize| if i >= gap { i + 1 } else { i };
        let mut roles = vec![dead; n + 1];
        for (i, role) in roles_of.iter().enumerate() {
            roles[slot(i)] = *role as u16;
        }
        let base = spec.build();
        let offset = superblock_offset(flavour, spec.device_size);
        let mut images: Vec<Image> = Vec::new();
        for i in 0..n {
            let mut image = base[roles_of[i]].clone();
            let mut sb = spec.v1(0);
            sb.roles = roles.clone();
            sb.dev_number = slot(i) as u32;
            sb.device_uuid = [i as u8 + 1; 16];
            image.write(offset, &sb.encode());
            images.push(image);
        }
        if spare {
            let mut image = Image::new(spec.device_size);
            let mut sb = spec.v1(0);
            sb.roles = roles.clone();
            sb.dev_number = n as u32 + 1;
            sb.device_uuid = [0xcc; 16];
            image.write(offset, &sb.encode());
            images.push(image);
        }
        ctx.obs(&(&spec, &roles, &order));
        ctx.note(|| format!("{spec:?} with roles {roles:x?} listed as {order:?}"));
        ctx.nontrivial();
        let mut array = open(&images, 512, &order);
        check_healthy(ctx, &mut array, &spec)
            .map_err(|e| format!("roles {roles:x?}, listed as {order:?}: {e}"))
    });

    e.family("data-offsets", |ctx| {
        // Every member may have a data offset and a size of its own.
        let flavour = *ctx.pick(&[Flavour::V1_0, Flavour::V1_1, Flavour::V1_2]);
        let layout = *ctx.pick(if thorough { &RAID6_LAYOUTS[..] } else { &[2, 9] });
        let choices: &[u64] = &[16, 24, 2048];
        let n = 4u32;
        let offsets: Vec<u64> = (0..n).map(|_| *ctx.pick(choices)).collect();
        let extra: Vec<u64> = (0..n).map(|i| 4096 * u64::from((i * 7) % 5)).collect();
        let base = spec(flavour, 6, layout, n, 8, 40, 16, 3);
        let mut images = Vec::new();
        for i in 0..n {
            let mut spec = base.clone();
            spec.data_offset = offsets[i as usize];
            spec.device_size = fit(flavour, spec.data_offset + spec.size) + extra[i as usize];
            images.push(spec.build()[i as usize].clone());
        }
        ctx.obs(&(&base, &offsets));
        ctx.note(|| format!("{base:?} with data offsets {offsets:?}"));
        ctx.nontrivial();
        let mut array = open(&images, 512, &[3, 0, 2, 1]);
        check_healthy(ctx, &mut array, &base).map_err(|e| format!("data offsets {offsets:?}: {e}"))
    });

    e.family("interface", |ctx| {
        let flavour = *ctx.pick(&FLAVOURS);
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = ctx.range(4, 5) as u32;
        let chunk = *ctx.pick(&[2u32, 8]);
        let spec = spec(flavour, 6, layout, n, chunk, u64::from(chunk) * 3, 24, 4);
        let images = spec.build();
        ctx.obs(&spec);
        ctx.nontrivial();
        let order: Vec<usize> = (0..n as usize).collect();
        let mut array = open(&images, 4096, &order);
        let sectors = spec.array_sectors();
        for block in 0..sectors {
            for len in [512usize, 513, 1024, 4096] {
                let mut buf = vec![0xee; len];
                ctx.step();
                match array.read_block(BlockNumber(block), &mut buf) {
                    Ok(512) if buf[..512] == data_sector(spec.seed, block) => {}
                    other => {
                        return Err(format!(
                            "{spec:?}: block {block} into {len} bytes: {other:?} or wrong data"
                        ))
                    }
                }
            }
            for len in [0usize, 1, 511] {
                ctx.step();
                if let Ok(n) = array.read_block(BlockNumber(block), &mut vec![0; len]) {
                    return Err(format!("{spec:?}: a buffer of {len} bytes got {n} bytes"));
                }
            }
        }
        // A clone, before and after the original has gone.
        let mut clone = array
            .try_clone()
            .map_err(|e| format!("{spec:?}: cannot clone: {e}"))?;
        for block in (0..sectors).rev() {
            want_block(&mut clone, &spec, block)?;
            want_block(&mut array, &spec, sectors - 1 - block)?;
        }
        drop(array);
        check_healthy(ctx, &mut clone, &spec)?;
        // As a stream.
        let mut all = Vec::new();
        let mut reader = BlockDeviceReader::new(clone);
        reader
            .read_to_end(&mut all)
            .map_err(|e| format!("{spec:?}: reading as a stream: {e}"))?;
        let want: Vec<u8> = (0..sectors).flat_map(|s| data_sector(spec.seed, s)).collect();
        if all != want {
            return Err(format!(
                "{spec:?}: as a stream {} bytes are read, {} stored, first difference at {:?}",
                all.len(),
                want.len(),
                all.iter().zip(&want).position(|(a, b)| a != b)
            ));
        }
        Ok(())
    });

    e.family("huge", |ctx| {
        let flavour = *ctx.pick(&FLAVOURS);
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = *ctx.pick(if thorough { &[4u32, 7, 24, 384][..] } else { &[4u32, 7, 24][..] });
        let chunk = *ctx.pick(&[8u32, 128, 1024, 4096, 1 << 16, 1 << 22]);
        let (old, max) = match flavour {
            // 32 bits of KiB.
            Flavour::V0Little | Flavour::V0Big => (true, (1u64 << 33) - 2048),
            _ => (false, 1 << 42),
        };
        let size = match ctx.choose(4) {
            0 => (1u64 << 31) + 8192,
            1 => (1 << 32) + u64::from(chunk) * 3,
            2 => (1 << 33) - 4096,
            _ => max,
        }
        .min(max);
        if old && n > 27 {
            return Ok(());
        }
        let offset = *ctx.pick(if old { &[0u64][..] } else { &[2048u64, 262144, 1 << 34, (1 << 53) + 8][..] });
        let mut spec = spec(flavour, 6, layout, n, chunk, size, offset, 5);
        spec.device_size += 4096 * 37;
        let stripes = spec.stripes();
        let near = |edge: u64| edge / u64::from(chunk);
        let mut wanted: Vec<u64> = Vec::new();
        // Around the places where numbers of sectors or bytes of a member or
        // of the array cross 32 bits.
        for edge in [
            0,
            near(1 << 22),
            near(1 << 23),
            near(1 << 31),
            near(1 << 32),
            near((1 << 32) / u64::from(spec.data_count())),
            near((1 << 31) / u64::from(spec.data_count())),
            stripes - 1,
        ] {
            for s in edge.saturating_sub(1)..=edge + 1 {
                if s < stripes && !wanted.contains(&s) {
                    wanted.push(s);
                }
            }
        }
        ctx.obs(&spec);
        ctx.note(|| format!("{spec:?}, stripes {wanted:?}"));
        ctx.nontrivial();
        // Only some rows of each stripe hold data.
        let rows = [0, u64::from(chunk) - 1];
        let images = build_rows(&spec, &wanted, &rows);
        let order: Vec<usize> = (0..n as usize).collect();
        let mut array = open(&images, 4096, &order);
        let sectors = spec.array_sectors();
        let count = array.block_count().map_err(|e| format!("{spec:?}: no size: {e}"))?.0;
        if count != sectors {
            return Err(format!("{spec:?}: {sectors} blocks, but the array says {count}"));
        }
        for s in &wanted {
            let step = (spec.data_count() / 5).max(1);
            for i in (0..spec.data_count()).step_by(step as usize) {
                for row in rows {
                    let chunk_no = s * u64::from(spec.data_count()) + u64::from(i);
                    ctx.step();
                    want_block(&mut array, &spec, chunk_no * u64::from(chunk) + row)?;
                }
            }
        }
        for block in [sectors, sectors + 1, u64::MAX] {
            if array.read_block(BlockNumber(block), &mut [0; 512]).is_ok() {
                return Err(format!("{spec:?}: block {block} beyond the end was read"));
            }
        }
        Ok(())
    });

    e.family("wide", |ctx| {
        // As many members as superblocks can describe.
        let widths: &[u32] = if thorough {
            &[27, 28, 33, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 258, 300, 383, 384, 513]
        } else {
            &[27, 28, 65, 129, 255, 256, 257, 384]
        };
        let n = *ctx.pick(widths);
        let flavour = match n {
            27 => *ctx.pick(&FLAVOURS),
            _ if thorough => *ctx.pick(&[Flavour::V1_0, Flavour::V1_1, Flavour::V1_2]),
            _ => Flavour::V1_2,
        };
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let chunk = 8;
        let size = u64::from(n + 3) * u64::from(chunk);
        let spec = spec(flavour, 6, layout, n, chunk, size, 48, 14);
        let stripes = spec.stripes();
        let mut wanted = vec![0, 1, u64::from(n) / 2, u64::from(n) - 1, u64::from(n), stripes - 1];
        wanted.dedup();
        ctx.obs(&spec);
        ctx.note(|| format!("{spec:?}, stripes {wanted:?}"));
        ctx.nontrivial();
        let rows = [0, u64::from(chunk) - 1];
        let images = build_rows(&spec, &wanted, &rows);
        let order: Vec<usize> = (0..n as usize).rev().collect();
        let mut array = open(&images, 512, &order);
        let count = array.block_count().map_err(|e| format!("{spec:?}: no size: {e}"))?.0;
        if count != spec.array_sectors() {
            return Err(format!(
                "{spec:?}: {} blocks, but the array says {count}",
                spec.array_sectors()
            ));
        }
        for (k, s) in wanted.iter().enumerate() {
            for i in 0..spec.data_count() {
                let chunk_no = s * u64::from(spec.data_count()) + u64::from(i);
                ctx.step();
                want_block(&mut array, &spec, chunk_no * u64::from(chunk) + rows[(k + i as usize) % 2])?;
            }
        }
        Ok(())
    });

    e.family("raid5", |ctx| {
        // RAID 5 need not be readable, but must not be read wrongly.
        let flavour = *ctx.pick(&FLAVOURS);
        let layout = *ctx.pick(&RAID5_LAYOUTS);
        let n = ctx.range(3, 5) as u32;
        let chunk = *ctx.pick(&[2u32, 8]);
        let partial = ctx.choose(2) as u64 * u64::from(chunk) / 2;
        let mut size = u64::from(chunk) * 4 + partial;
        size -= size % 2;
        let spec = spec(flavour, 5, layout, n, chunk, size, 24, 6);
        ctx.obs(&spec);
        ctx.nontrivial();
        let images = spec.build();
        let order: Vec<usize> = (0..n as usize).collect();
        let mut array = open(&images, 512, &order);
        let count = array.block_count().map_err(|e| format!("{spec:?}: no size: {e}"))?.0;
        if count != spec.array_sectors() {
            return Err(format!(
                "{spec:?}: {} blocks, but the array says {count}",
                spec.array_sectors()
            ));
        }
        for block in 0..count {
            ctx.step();
            if let Ok(data) = read_block(&mut array, block) {
                if data != data_sector(spec.seed, block) {
                    return Err(format!("{spec:?}: block {block} has wrong data"));
                }
            }
        }
        Ok(())
    });
}

/// Members of a huge array: the given rows of the given stripes, and the
/// superblocks.
fn build_rows(spec: &ArraySpec, stripes: &[u64], rows: &[u64]) -> Vec<Image> {
    let mut members: Vec<Image> = (0..spec.n).map(|_| Image::new(spec.device_size)).collect();
    for s in stripes {
        let stripe = spec.stripe(*s);
        for row in rows {
            let at = (spec.data_offset + s * u64::from(spec.chunk) + row) * 512;
            let mut p = [0u8; 512];
            for (i, d) in stripe.data.iter().enumerate() {
                let chunk_no = s * u64::from(spec.data_count()) + i as u64;
                let data = data_sector(spec.seed, chunk_no * u64::from(spec.chunk) + row);
                p.iter_mut().zip(&data).for_each(|(p, d)| *p ^= d);
                members[*d as usize].write(at, &data);
            }
            members[stripe.p as usize].write(at, &p);
        }
    }
    let offset = superblock_offset(spec.flavour, spec.device_size);
    for (i, member) in members.iter_mut().enumerate() {
        member.write(offset, &spec.superblock(i as u32));
    }
    members
}

/// Which blocks have to be readable.
fn check_damaged(
    ctx: &Ctx,
    array: &mut Array,
    spec: &ArraySpec,
    intact: impl Fn(u64) -> bool,
) -> Result<u64, String> {
    check_damaged_of(ctx, array, spec, |block| data_sector(spec.seed, block), intact)
}

/// The same for an array with other contents.
fn check_damaged_of(
    ctx: &Ctx,
    array: &mut Array,
    spec: &ArraySpec,
    content: impl Fn(u64) -> [u8; 512],
    intact: impl Fn(u64) -> bool,
) -> Result<u64, String> {
    let mut refused = 0;
    for block in 0..spec.array_sectors() {
        ctx.step();
        match read_block(array, block) {
            Ok(data) => {
                if data != content(block) {
                    return Err(format!(
                        "{spec:?}: block {block} is returned with wrong data ({})",
                        whose(spec, block, &data)
                    ));
                }
            }
            Err(e) => {
                refused += 1;
                if intact(block) {
                    return Err(format!(
                        "{spec:?}: block {block} is intact but cannot be read: {e}"
                    ));
                }
            }
        }
    }
    ctx.obs(&refused);
    Ok(refused)
}

fn c03(e: &mut Explorer) {
    let thorough = e.thorough;

    e.family("changed-byte", |ctx| {
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = if thorough { ctx.range(4, 6) } else { ctx.range(4, 5) } as u32;
        let flavour = *ctx.pick(if thorough { &FLAVOURS[..] } else { &[Flavour::V1_2][..] });
        let chunk = 2u64;
        let spec = spec(flavour, 6, layout, n, chunk as u32, chunk * 4, 16, 7);
        let stripe = ctx.choose(4) as u64;
        let row = ctx.choose(2) as u64;
        let member = ctx.choose(n as usize) as u32;
        let byte = if thorough {
            ctx.choose(512) as u64
        } else {
            *ctx.pick(&[0u64, 1, 7, 8, 63, 64, 255, 256, 257, 504, 510, 511])
        };
        let mask = *ctx.pick(&[0x01u8, 0x80, 0x10, 0xff]);
        ctx.obs(&(&spec, stripe, row, member, byte, mask));
        ctx.note(|| {
            format!("{spec:?}: byte {byte} of row {row} of stripe {stripe} of member {member} xor {mask:#x}")
        });
        let mut images = cached(&spec);
        let at = (spec.data_offset + stripe * chunk + row) * 512 + byte;
        images[member as usize].xor(at, mask);
        let is_q = spec.stripe(stripe).q == Some(member);
        let order: Vec<usize> = (0..n as usize).collect();
        let mut array = open(&images, 512, &order);
        ctx.nontrivial();
        check_damaged(ctx, &mut array, &spec, |block| {
            let (s, _, sector) = spec.locate(block);
            s != stripe || sector != stripe * chunk + row || is_q
        })
        .map(|_| ())
        .map_err(|e| {
            format!("byte {byte} of row {row} of stripe {stripe} of member {member} xor {mask:#x}: {e}")
        })
    });

    e.family("every-byte", |ctx| {
        // Every byte of a sector, in arrays of many widths.
        let widths: &[u32] = if thorough {
            &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 18, 19, 32, 34, 35, 66]
        } else {
            &[4, 6, 8, 10, 11, 18, 34]
        };
        let n = *ctx.pick(widths);
        let layout = *ctx.pick(if thorough { &[2u32, 4, 5, 10, 16] } else { &[2u32, 10] });
        let spec = spec(Flavour::V1_2, 6, layout, n, 1, 3, 48, 15);
        let images = cached(&spec);
        let stripe = 1;
        let member = match n {
            0..=12 => ctx.choose(n as usize),
            _ => *ctx.pick(&[0, 1, n as usize / 2, n as usize - 2, n as usize - 1]),
        };
        let order: Vec<usize> = (0..n as usize).collect();
        let is_q = spec.stripe(stripe).q == Some(member as u32);
        let data = spec.stripe(stripe).data;
        let at = (spec.data_offset + stripe) * 512;
        let blocks = stripe * u64::from(n - 2)..(stripe + 1) * u64::from(n - 2);
        ctx.obs(&(&spec, member));
        ctx.note(|| format!("{spec:?}: each byte of stripe {stripe} of member {member}"));
        ctx.nontrivial();
        for byte in 0..512u64 {
            // All values in turn at two places.
            let masks = match byte {
                5 | 510 => 1..=255,
                _ => 1 << (byte % 8)..=1u8 << (byte % 8),
            };
            for mask in masks {
                let mut images = images.clone();
                images[member].xor(at + byte, mask);
                let mut array = open(&images, 512, &order);
                // The data that is damaged, if any, and its neighbours.
                let chosen = |block: &u64| {
                    n <= 6
                        || *block == blocks.start
                        || data[spec.locate(*block).1] == member as u32
                        || *block + 1 == blocks.end
                };
                for block in blocks.clone().filter(chosen) {
                    ctx.step();
                    match read_block(&mut array, block) {
                        Ok(data) if data != data_sector(spec.seed, block) => {
                            return Err(format!(
                                "{spec:?}: byte {byte} of stripe {stripe} of member {member} xor {mask:#x}: block {block} is returned with wrong data"
                            ))
                        }
                        Err(e) if is_q => {
                            return Err(format!("{spec:?}: only Q is damaged, but block {block}: {e}"))
                        }
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    });

    e.family("changed-sector", |ctx| {
        // A whole sector (of one member) holds something else: zeros, ones,
        // old data, data of another sector, or of another member.
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = ctx.range(4, 5) as u32;
        let chunk = *ctx.pick(&[1u64, 8]);
        let spec = spec(Flavour::V1_2, 6, layout, n, chunk as u32, chunk * 5, 16, 8);
        let stripe = ctx.choose(5) as u64;
        let row = ctx.choose(chunk.min(2) as usize) as u64 * (chunk - 1);
        let member = ctx.choose(n as usize);
        let kind = ctx.choose(5);
        let mut images = cached(&spec);
        let at = (spec.data_offset + stripe * chunk + row) * 512;
        let before = images[member].bytes(at, 512);
        let bytes = match kind {
            0 => vec![0; 512],
            1 => vec![0xff; 512],
            2 => images[(member + 1) % n as usize].bytes(at, 512),
            3 => images[member].bytes(at ^ 512, 512),
            _ => data_sector(99, stripe).to_vec(),
        };
        images[member].write(at, &bytes);
        let changed = bytes != before;
        ctx.obs(&(&spec, stripe, row, member, kind));
        if changed {
            ctx.nontrivial();
        }
        let is_q = spec.stripe(stripe).q == Some(member as u32);
        let order: Vec<usize> = (0..n as usize).collect();
        let mut array = open(&images, 4096, &order);
        check_damaged(ctx, &mut array, &spec, |block| {
            let (_, _, sector) = spec.locate(block);
            !changed || sector != stripe * chunk + row || is_q
        })
        .map(|_| ())
    });

    e.family("wide", |ctx| {
        // Each member in turn of an array of many is damaged, missing, or
        // cannot be read.
        let widths: &[u32] = if thorough {
            &[27, 33, 65, 66, 67, 127, 128, 129, 130, 255, 256, 257, 258, 259, 383, 384]
        } else {
            &[27, 66, 130, 258, 384]
        };
        let n = *ctx.pick(widths);
        let layout = *ctx.pick(if thorough { &[2u32, 10, 17] } else { &[2u32, 10] });
        let spec = spec(Flavour::V1_2, 6, layout, n, 1, 3, 48, 16);
        let images = cached(&spec);
        let member = ctx.choose(n as usize);
        let stripe = 1u64;
        let kind = ctx.choose(3);
        let at = (spec.data_offset + stripe) * 512;
        let is_q = spec.stripe(stripe).q == Some(member as u32);
        let data = spec.stripe(stripe).data;
        let per = u64::from(n - 2);
        let hit = data.iter().position(|d| *d == member as u32).unwrap_or(1) as u64;
        ctx.obs(&(&spec, member, kind));
        ctx.note(|| format!("{spec:?}: damage {kind} to stripe {stripe} of member {member}"));
        ctx.nontrivial();
        let devices = (0..n as usize).filter(|i| kind != 1 || *i != member).map(|i| {
            let mut image = images[i].clone();
            if i == member && kind == 0 {
                image.xor(at + (member as u64 * 7) % 512, 1 << (member % 8));
            }
            let mut dev = SimDev::new(image, 512);
            if i == member && kind == 2 {
                dev = dev.bad_range(at, at + 512);
            }
            open_device(dev, i)
        });
        let mut array = MdArray::open(devices);
        for block in [0, per, per + hit, 2 * per - 1, 2 * per] {
            let intact = kind != 1 && spec.locate(block).0 != stripe;
            ctx.step();
            match read_block(&mut array, block) {
                Ok(data) if data == data_sector(spec.seed, block) => {}
                Ok(data) => {
                    return Err(format!(
                        "{spec:?}: damage {kind} to member {member}: block {block} is returned with {}",
                        whose(&spec, block, &data)
                    ))
                }
                Err(e) if intact || (is_q && kind == 0) => {
                    return Err(format!("{spec:?}: damage {kind} to member {member}: block {block}: {e}"))
                }
                Err(_) => {}
            }
        }
        Ok(())
    });

    e.family("regular-data", |ctx| {
        // Stripes of which some or all sectors are equal, or zeros (so that
        // the parity may be, too), with damage to one member, or with any
        // combination of members that end or cannot be read in the stripe.
        let layout = *ctx.pick(if thorough { &RAID6_LAYOUTS[..] } else { &[2, 4, 5, 9, 10] });
        let n = if thorough { ctx.range(4, 5) } else { 4 };
        let spec = spec(Flavour::V1_2, 6, layout, n as u32, 1, 3, 32, 13);
        let count = n - 2;
        let patterns: Vec<usize> = (0..count).map(|_| ctx.choose(4)).collect();
        let stripe = ctx.choose(3) as u64;
        let content = |sector: u64| match sector / count as u64 == stripe {
            true => match patterns[sector as usize % count] {
                0 => [0; 512],
                1 => data_sector(13, 999),
                2 => data_sector(13, sector),
                _ => {
                    let mut bytes = [0; 512];
                    bytes[500] = 1;
                    bytes
                }
            },
            false => data_sector(13, sector),
        };
        let images = spec.build_with(|_| true, content);
        let at = (spec.data_offset + stripe) * 512;
        let damage = ctx.choose(3);
        ctx.nontrivial();
        ctx.obs(&(&spec, &patterns, stripe, damage));
        let order: Vec<usize> = (0..n).collect();
        let (mut array, members) = if damage == 0 {
            let member = ctx.choose(n);
            let mut images = images.clone();
            let before = images[member].bytes(at, 512);
            match ctx.choose(6) {
                0 => images[member].write(at, &[0; 512]),
                1 => images[member].write(at, &data_sector(13, 999)),
                2 => images[member].write(at, &[0xff; 512]),
                3 => images[member].xor(at, 1),
                4 => images[member].xor(at + 500, 1),
                _ => images[member].xor(at + 511, 0x80),
            }
            let changed = images[member].bytes(at, 512) != before;
            ctx.obs(&(member, images[member].bytes(at, 512)));
            let members = if changed { 1 << member } else { 0 };
            (open(&images, 512, &order), members)
        } else {
            let members = 1 + ctx.choose((1 << n) - 1);
            ctx.obs(&members);
            let devices = (0..n).map(|i| {
                let mut image = images[i].clone();
                let bad = members >> i & 1 == 1;
                if bad && damage == 1 {
                    image = image.resized(at);
                }
                let mut dev = SimDev::new(image, 512);
                if bad && damage == 2 {
                    dev = dev.bad_range(at, at + 512);
                }
                open_device(dev, i)
            });
            (MdArray::open(devices), members)
        };
        let what =
            || format!("data {patterns:?} in stripe {stripe}, damage {damage} of members {members:#b}");
        ctx.note(what);
        check_damaged_of(ctx, &mut array, &spec, content, |block| {
            let s = spec.locate(block).0;
            // (A device that ends here has nothing after it either.)
            let is_q = damage == 0 && spec.stripe(stripe).q.is_some_and(|q| members == 1 << q);
            members == 0 || is_q || if damage == 1 { s < stripe } else { s != stripe }
        })
        .map(|_| ())
        .map_err(|e| format!("{}: {e}", what()))
    });

    e.family("missing-or-twice", |ctx| {
        // Any selection of members, each absent, present, or listed twice.
        let flavour = *ctx.pick(&FLAVOURS);
        let layout = *ctx.pick(if thorough { &RAID6_LAYOUTS[..] } else { &[0, 2, 4, 5, 8, 10, 16, 20] });
        let n = if thorough { ctx.range(4, 5) } else { 4 };
        let spec = spec(flavour, 6, layout, n as u32, 2, 10, 16, 9);
        let images = cached(&spec);
        let mut list: Vec<usize> = Vec::new();
        let mut twice = Vec::new();
        for i in 0..n {
            match ctx.choose(3) {
                0 => list.push(i),
                1 => {}
                _ => {
                    list.push(i);
                    twice.push(i);
                }
            }
        }
        match ctx.choose(2) {
            0 => list.extend(&twice),
            _ => list = twice.iter().rev().chain(list.iter().rev()).copied().collect(),
        }
        let complete = list.len() == n && twice.is_empty();
        ctx.obs(&(&spec, &list));
        ctx.note(|| format!("{spec:?} listed as {list:?}"));
        if !complete {
            ctx.nontrivial();
        }
        let mut array = open(&images, 512, &list);
        check_damaged(ctx, &mut array, &spec, |_| complete)
            .map(|_| ())
            .map_err(|e| format!("members {list:?}: {e}"))
    });

    e.family("stale-twin", |ctx| {
        // An old copy of a member (same slot, other contents) is listed too.
        let flavour = *ctx.pick(&FLAVOURS);
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = 4usize;
        let spec = spec(flavour, 6, layout, n as u32, 2, 10, 16, 10);
        let mut old = spec.clone();
        old.seed = 77;
        let member = ctx.choose(n);
        let position = ctx.choose(n + 1);
        let mut images = cached(&spec);
        images.push(cached(&old)[member].clone());
        let mut list: Vec<usize> = (0..n).collect();
        list.insert(position, n);
        ctx.obs(&(&spec, member, position));
        ctx.nontrivial();
        let mut array = open(&images, 512, &list);
        check_damaged(ctx, &mut array, &spec, |_| false)
            .map(|_| ())
            .map_err(|e| format!("a second copy of member {member} listed at {position}: {e}"))
    });

    e.family("truncated-or-unreadable", |ctx| {
        let flavour = *ctx.pick(&[Flavour::V1_1, Flavour::V1_2]);
        let layout = *ctx.pick(if thorough { &RAID6_LAYOUTS[..] } else { &[2, 4, 5, 9, 17] });
        let n = 4u32;
        let chunk = 2u64;
        let block_size = *ctx.pick(&[512u32, 4096]);
        let spec = spec(flavour, 6, layout, n, chunk as u32, chunk * 8, 16, 11);
        let images = cached(&spec);
        let member = ctx.choose(n as usize);
        let truncate = ctx.flag();
        // In sectors of the member's data.
        let from = ctx.choose(16) as u64;
        let to = if truncate { 1 << 40 } else { from + 1 };
        let data = spec.data_offset * 512;
        let bs = u64::from(block_size);
        // The member's blocks that are affected.
        let (lo, hi) = if truncate {
            let cut = (data + from * 512) / bs * bs;
            (cut, u64::MAX)
        } else {
            ((data + from * 512) / bs * bs, (data + to * 512).div_ceil(bs) * bs)
        };
        ctx.obs(&(&spec, block_size, member, truncate, from));
        ctx.note(|| format!("{spec:?}: member {member} bad at {from}, truncated: {truncate}"));
        ctx.nontrivial();
        let devices = (0..n as usize).map(|i| {
            let mut image = images[i].clone();
            if i == member && truncate {
                image = image.resized(data + from * 512);
            }
            let mut dev = SimDev::new(image, block_size);
            if i == member && !truncate {
                dev = dev.bad_range(data + from * 512, data + to * 512);
            }
            open_device(dev, i)
        });
        let mut array = MdArray::open(devices);
        // A truncated member may have become too small to have a superblock.
        let gone = truncate && (data + from * 512) / bs * bs < 12288;
        check_damaged(ctx, &mut array, &spec, |block| {
            let at = data + spec.locate(block).2 * 512;
            !gone && (at + 512 <= lo || at >= hi)
        })
        .map(|_| ())
        .map_err(|e| format!("member {member} bad at {from}, truncated: {truncate}: {e}"))
    });

    let bound = if thorough { 3 } else { 2 };
    let faulty = |ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose(ctx));
        // The device misbehaves while blocks are read.
        let layout = *ctx.pick(if thorough { &RAID6_LAYOUTS[..] } else { &[2, 10] });
        let n = 4u32;
        let block_size = *ctx.pick(&[512u32, 4096]);
        let spec = spec(Flavour::V1_2, 6, layout, n, 1, 3, 16, 12);
        // Every other sector may be zeros.
        let zeros = ctx.choose(3) as u64;
        let content = |sector: u64| match zeros != 0 && sector % 2 == zeros - 1 {
            true => [0; 512],
            false => data_sector(12, sector),
        };
        let images = spec.build_with(|_| true, content);
        let devices: Vec<SimDev> = images
            .iter()
            .map(|image| SimDev::new(image.clone(), block_size))
            .collect();
        let shared: Vec<_> = devices.iter().map(|d| d.shared.clone()).collect();
        for device in &devices {
            let reads = [Fault::Error, Fault::Interrupted, Fault::OneByte, Fault::Half, Fault::Eof];
            device.inject(ctx, if kinds { &reads[..1] } else { &reads }, true);
        }
        // Not while the members are being opened (that is C04).
        for s in &shared {
            s.pause(true);
        }
        let mut array =
            MdArray::open(devices.into_iter().enumerate().map(|(i, d)| open_device(d, i)));
        for s in &shared {
            s.pause(false);
        }
        let injected = || -> usize { shared.iter().map(|s| s.faults_injected.borrow().len()).sum() };
        let hard = || -> usize {
            shared
                .iter()
                .map(|s| {
                    s.faults_injected
                        .borrow()
                        .iter()
                        .filter(|(_, f)| !matches!(f, Fault::Interrupted | Fault::OneByte | Fault::Half))
                        .count()
                })
                .sum()
        };
        for block in [0, 3, 5] {
            let before = hard();
            match read_block(&mut array, block) {
                Ok(data) => {
                    if data != content(block) {
                        return Err(format!("{spec:?}: block {block} has wrong data after faults"));
                    }
                }
                Err(e) => {
                    if hard() == before && injected() == 0 {
                        return Err(format!("{spec:?}: block {block}: {e} without a fault"));
                    }
                }
            }
            ctx.step();
            ctx.obs(&injected());
        }
        // And afterwards everything works again.
        for s in &shared {
            s.pause(true);
        }
        if injected() > 0 {
            ctx.nontrivial();
        }
        for s in &shared {
            for (access, fault) in s.faults_injected.borrow().iter() {
                ctx.obs(&format!("{access:?}{fault:?}"));
            }
        }
        for block in 0..spec.array_sectors() {
            ctx.step();
            match read_block(&mut array, block) {
                Ok(data) if data == content(block) => {}
                Ok(_) => return Err(format!("{spec:?}: block {block} is wrong after faults")),
                Err(e) => return Err(format!("{spec:?}: block {block} after faults: {e}")),
            }
        }
        Ok(())
    };
    e.bounded("faults", bound, |ctx| faulty(ctx, false));
    e.bounded("every error", 1, |ctx| faulty(ctx, true));
}

thread_local! {
    static CACHE: std::cell::RefCell<Option<(ArraySpec, Vec<Image>)>> =
        const { std::cell::RefCell::new(None) };
}

/// The members of an array; consecutive executions mostly ask for the same.
pub fn cached(spec: &ArraySpec) -> Vec<Image> {
    if let Some(images) = CACHE.with(|c| {
        c.borrow()
            .as_ref()
            .filter(|(s, _)| s == spec)
            .map(|(_, images)| images.clone())
    }) {
        return images;
    }
    let images = spec.build();
    CACHE.with(|c| *c.borrow_mut() = Some((spec.clone(), images.clone())));
    images
}
