//! C21: a filesystem on an array reads as on a plain device.

use crate::explore::{Ctx, Explorer};
use crate::ext4_io::{array_members, array_spec, show, world, Got, Handle, World};
use crate::ext4ref::Csum;
use crate::md_array::{open_device, spec};
use crate::mdref::{layout_name, superblock_offset, ArraySpec, Flavour, FLAVOURS, RAID6_LAYOUTS};
use crate::simdev::{Access, Failure, Fault, Image, SimDev};
use crate::{Check, Level};
use std::io::{Read, Seek};
use sut::verif::ext4::Ext4Fs;
use sut::verif::md::{MdArray, MdDevice};
use sut::verif::{BlockDevice, BlockDeviceReader, InMemoryBlockDevice, BlockSize};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C21",
        level: Level::Faults,
        rule: "one execution assembles a RAID 6 array, opens the filesystem on it, and lists and \
               reads everything, which must be what was put there; with damaged, unreadable, \
               missing or exchanged members, every result up to the first error must be; \
               non-trivial if the array is not the plain one or a member is not as it should be",
        assumptions: &[
            "of each stripe at most one member's sector is damaged, or the P parity shows it",
            "levels other than RAID 6 are not readable by the program",
        ],
        note: "Every layout with every enumerated geometry; every sector of every member damaged in \
               every enumerated way; every set of missing members.",
        run,
    }]
}

/// Reads everything. `Ok(true)` if all of it was there, `Ok(false)` after an
/// error of the program.
fn read_all<D: BlockDevice + Read + Seek>(ctx: &Ctx, device: D, world: &World) -> Result<Result<(), String>, String> {
    let mut fs = match Ext4Fs::open(device) {
        Ok(fs) => fs,
        Err(e) => return Ok(Err(format!("the filesystem does not open: {e}"))),
    };
    ctx.step();
    let mut failed = None;
    for ino in [2, 12, 13] {
        let mut handle = match Handle::open(&mut fs, ino) {
            Ok(handle) => handle,
            Err(e) => {
                failed = Some(e);
                continue;
            }
        };
        for (i, want) in world.contents[&ino].iter().map(Some).chain([None]).enumerate() {
            ctx.step();
            match (handle.next(world.bs), want) {
                (Got::Item(got), Some(want)) if got == *want => {}
                (Got::End, None) => {}
                (Got::Item(got), Some(want)) => {
                    return Err(format!("item {i} of inode {ino} is {}, should be {}", show(&got), show(want)))
                }
                (Got::Item(got), None) => return Err(format!("inode {ino} goes on with {}", show(&got))),
                (Got::End, Some(_)) => return Err(format!("inode {ino} ends after {i} items")),
                (Got::Error(e), _) => {
                    failed = Some(format!("item {i} of inode {ino}: {e}"));
                    break;
                }
            }
        }
    }
    Ok(failed.map_or(Ok(()), Err))
}

fn sound<D: BlockDevice + Read + Seek>(ctx: &Ctx, device: D, world: &World) -> Result<(), String> {
    read_all(ctx, device, world)?.map_err(|e| format!("an error without cause: {e}"))
}

/// Errors are fine, wrong data is not.
fn damaged<D: BlockDevice + Read + Seek>(ctx: &Ctx, device: D, world: &World) -> Result<(), String> {
    let result = read_all(ctx, device, world)?;
    ctx.obs(&result);
    Ok(())
}

type Stack = BlockDeviceReader<MdArray<SimDev>>;

fn stack(devices: impl IntoIterator<Item = MdDevice<SimDev>>) -> Stack {
    BlockDeviceReader::new(MdArray::open(devices))
}

fn open_all(images: &[Image], block_size: u32) -> Stack {
    stack(
        images
            .iter()
            .enumerate()
            .map(|(i, image)| open_device(SimDev::new(image.clone(), block_size), i)),
    )
}

fn describe(spec: &ArraySpec) -> String {
    format!(
        "{:?} {} n={} chunk={}",
        spec.flavour,
        layout_name(spec.level, spec.layout),
        spec.n,
        spec.chunk
    )
}

fn array_of(flavour: Flavour, layout: u32, n: u32, chunk: u32, world: &World) -> (ArraySpec, Vec<Image>) {
    let base = array_spec(6, layout, n, chunk, &world.image);
    let spec = spec(flavour, 6, layout, n, chunk, base.size, 24, 1);
    let members = array_members(&spec, &world.image);
    (spec, members)
}

fn run(e: &mut Explorer) {
    let thorough = e.thorough;
    let kinds: Vec<(u32, Csum, usize)> = if thorough {
        vec![
            (0, Csum::None, 0),
            (0, Csum::Uuid, 1),
            (1, Csum::Uuid, 0),
            (1, Csum::None, 1),
            (2, Csum::None, 1),
            (2, Csum::Uuid, 1),
        ]
    } else {
        vec![(0, Csum::None, 0), (0, Csum::Uuid, 1), (2, Csum::Uuid, 1)]
    };
    let worlds: Vec<World> = kinds.iter().map(|(bs, csum, levels)| world(*bs, *csum, *levels)).collect();
    let worlds = &worlds;
    let chunks: &[u32] = if thorough {
        &[1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32, 64, 128, 1024]
    } else {
        &[1, 2, 3, 8, 16, 128]
    };
    let counts: &[u32] = if thorough { &[4, 5, 6, 7, 8, 9, 12] } else { &[4, 5, 6, 7] };

    e.family("geometries", &|ctx: &Ctx| {
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = *ctx.pick(counts);
        let chunk = *ctx.pick(chunks);
        let flavour = *ctx.pick(&FLAVOURS);
        let world = ctx.pick(worlds);
        let (spec, members) = array_of(flavour, layout, n, chunk, world);
        let bs = *ctx.pick(&[512, 4096]);
        if spec.device_size % u64::from(bs) != 0 {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.obs(&(layout, n, chunk, flavour, world.bs, bs));
        ctx.note(|| format!("{} block size {bs}", describe(&spec)));
        sound(ctx, open_all(&members, bs), world)
    });

    e.family("orders", &|ctx: &Ctx| {
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let n = if thorough { ctx.range(4, 5) } else { 4 };
        let order = ctx.permutation(n);
        let flavour = *ctx.pick(&FLAVOURS);
        let world = &worlds[1];
        let (_, members) = array_of(flavour, layout, n as u32, 2, world);
        ctx.nontrivial();
        ctx.obs(&(layout, &order, flavour));
        let devices = order
            .iter()
            .map(|i| open_device(SimDev::new(members[*i].clone(), 512), *i));
        sound(ctx, stack(devices), world)
    });

    e.family("memory", &|ctx: &Ctx| {
        // Another kind of device below.
        let layout = *ctx.pick(&RAID6_LAYOUTS);
        let bs = *ctx.pick(&[512u32, 4096]);
        let world = ctx.pick(worlds);
        let (_, members) = array_of(Flavour::V1_2, layout, 5, 8, world);
        ctx.nontrivial();
        ctx.obs(&(layout, bs, world.bs));
        let mut devices = Vec::new();
        for (i, image) in members.iter().enumerate() {
            let bytes = image.bytes(0, image.size as usize);
            let device = InMemoryBlockDevice::new(bytes, BlockSize(bs));
            let device = MdDevice::from_block_device(BlockDeviceReader::new(device), Some(format!("/dev/{i}")));
            devices.push(device.map_err(|e| format!("member {i}: {e}"))?);
        }
        sound(ctx, BlockDeviceReader::new(MdArray::open(devices)), world)
    });

    // Every sector of every member damaged.
    let world1 = &worlds[1];
    let arrays: Vec<(ArraySpec, Vec<Image>)> = RAID6_LAYOUTS
        .iter()
        .flat_map(|layout| [(*layout, 4, 2), (*layout, 5, 3)])
        .map(|(layout, n, chunk)| array_of(Flavour::V1_2, layout, n, chunk, world1))
        .collect();
    let arrays = &arrays;
    e.family("one damaged sector", &|ctx: &Ctx| {
        let (spec, members) = ctx.pick(arrays);
        let member = ctx.choose(spec.n as usize);
        let sector = spec.data_offset + ctx.choose(spec.size as usize) as u64;
        let kind = ctx.choose(if thorough { 5 } else { 4 });
        let mut members = members.clone();
        damage(&mut members[member], sector, kind);
        ctx.nontrivial();
        ctx.obs(&(spec.layout, spec.n, member, sector, kind));
        ctx.note(|| format!("{}: sector {sector} of member {member} damaged ({kind})", describe(spec)));
        damaged(ctx, open_all(&members, 512), world1)
    });

    e.family("one damaged bit", &|ctx: &Ctx| {
        // In the filesystem's superblock, a descriptor, an inode and a directory.
        let (spec, members) = &arrays[ctx.choose(if thorough { arrays.len() } else { 4 })];
        let member = ctx.choose(spec.n as usize);
        let sector = spec.data_offset + ctx.choose(if thorough { 12 } else { 6 }) as u64;
        let bit = if thorough { ctx.choose(4096) } else { 8 * ctx.choose(512) + ctx.choose(2) * 7 };
        let mut members = members.clone();
        members[member].xor(sector * 512 + bit as u64 / 8, 1 << (bit % 8));
        ctx.nontrivial();
        ctx.obs(&(spec.layout, spec.n, member, sector, bit));
        ctx.note(|| format!("{}: bit {bit} of sector {sector} of member {member}", describe(spec)));
        damaged(ctx, open_all(&members, 512), world1)
    });

    e.family("two damaged sectors", &|ctx: &Ctx| {
        // On one member, or in different stripes.
        let (spec, members) = &arrays[2 * ctx.choose(if thorough { 14 } else { 2 })];
        let a = (ctx.choose(spec.n as usize), ctx.choose(spec.size as usize) as u64);
        let rest = if thorough { spec.size } else { 12.min(spec.size) };
        let b = (ctx.choose(spec.n as usize), ctx.choose(rest as usize) as u64);
        // The same sector of two members could be wrong consistently.
        if b.1 == a.1 || b >= a {
            return Ok(());
        }
        let mut members = members.clone();
        for (member, sector) in [a, b] {
            damage(&mut members[member], spec.data_offset + sector, 2);
        }
        ctx.nontrivial();
        ctx.obs(&(spec.layout, a, b));
        ctx.note(|| format!("{}: sectors {a:?} and {b:?} damaged", describe(spec)));
        damaged(ctx, open_all(&members, 512), world1)
    });

    e.family("unreadable sectors", &|ctx: &Ctx| {
        let (spec, members) = ctx.pick(arrays);
        let member = ctx.choose(spec.n as usize);
        let sector = spec.data_offset + ctx.choose(spec.size as usize) as u64;
        let len = *ctx.pick(&[1u64, 8, 1 << 40]);
        ctx.nontrivial();
        ctx.obs(&(spec.layout, spec.n, member, sector, len));
        ctx.note(|| format!("{}: sectors of member {member} unreadable from {sector}", describe(spec)));
        let devices = members.iter().enumerate().map(|(i, image)| {
            let dev = SimDev::new(image.clone(), 512);
            open_device(
                if i == member { dev.bad_range(sector * 512, (sector + len) * 512) } else { dev },
                i,
            )
        });
        damaged(ctx, stack(devices), world1)
    });

    e.family("replaced members", &|ctx: &Ctx| {
        // Data of a member from elsewhere, below a superblock that is right.
        let (spec, members) = ctx.pick(arrays);
        let n = spec.n as usize;
        let a = ctx.choose(n);
        let from = ctx.choose(n + 3);
        let offset = superblock_offset(spec.flavour, spec.device_size);
        let superblock = members[a].bytes(offset, 1024);
        let mut changed = members.clone();
        changed[a] = match from.checked_sub(n) {
            None => members[from].clone(),
            Some(0) => Image::new(spec.device_size),
            Some(1) => Image::from_bytes(&vec![0xff; spec.device_size as usize]),
            _ => {
                // Its data moved by one sector.
                let mut image = Image::new(spec.device_size);
                let data = members[a].bytes(spec.data_offset * 512, (spec.size as usize - 1) * 512);
                image.write((spec.data_offset + 1) * 512, &data);
                image
            }
        };
        changed[a].write(offset, &superblock);
        ctx.nontrivial();
        ctx.obs(&(spec.layout, spec.n, a, from));
        ctx.note(|| format!("{}: member {a} replaced ({from})", describe(spec)));
        damaged(ctx, open_all(&changed, 512), world1)
    });

    e.family("missing members", &|ctx: &Ctx| {
        // Every set of members, each there once, twice or replaced by a blank.
        let (spec, members) = ctx.pick(arrays);
        let kinds: Vec<usize> = (0..spec.n).map(|_| ctx.choose(4)).collect();
        let mut devices = Vec::new();
        for (i, kind) in kinds.iter().enumerate() {
            let image = match kind {
                1 => continue,
                3 => Image::new(spec.device_size),
                _ => members[i].clone(),
            };
            devices.push(open_device(SimDev::new(image.clone(), 512), i));
            if *kind == 2 {
                devices.push(open_device(SimDev::new(image, 512), 10 + i));
            }
        }
        if kinds.iter().any(|k| *k != 0) {
            ctx.nontrivial();
        }
        ctx.obs(&(spec.layout, &kinds));
        ctx.note(|| format!("{}: {kinds:?} (1 missing, 2 twice, 3 blank)", describe(spec)));
        let stack = stack(devices);
        if kinds.iter().all(|k| *k == 0) {
            sound(ctx, stack, world1)
        } else {
            damaged(ctx, stack, world1)
        }
    });

    let faulty = &|ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose(ctx));
        // A fault of one member at any operation.
        let (spec, members) = &arrays[if kinds {
            0
        } else {
            ctx.choose(if thorough { 4 } else { arrays.len() })
        }];
        let member = if kinds { 1 } else { ctx.choose(spec.n as usize) };
        let devices: Vec<SimDev> = members.iter().map(|image| SimDev::new(image.clone(), 512)).collect();
        let shared = devices[member].shared.clone();
        let opened: Vec<_> = devices.into_iter().enumerate().map(|(i, dev)| open_device_faulty(ctx, dev, i, i == member, kinds)).collect();
        let result = read_all(ctx, stack(opened), world1)?;
        let faults = shared.faults_injected.borrow().len();
        if faults > 0 {
            ctx.nontrivial();
        }
        ctx.obs(&ctx.path());
        let transient = shared
            .faults_injected
            .borrow()
            .iter()
            .all(|(access, fault)| {
                matches!(access, Access::Read { .. }) && matches!(fault, Fault::Half | Fault::Interrupted)
            });
        match result {
            Err(e) if transient => Err(format!("short or interrupted reads ({faults}) cause an error: {e}")),
            _ => Ok(()),
        }
    };
    e.bounded("faults", if thorough { 2 } else { 1 }, &|ctx: &Ctx| faulty(ctx, false));
    e.bounded("every error", 1, &|ctx: &Ctx| faulty(ctx, true));
}

fn open_device_faulty(ctx: &Ctx, dev: SimDev, i: usize, faulty: bool, kinds: bool) -> MdDevice<SimDev> {
    let shared = dev.shared.clone();
    if faulty {
        let reads = [Fault::Error, Fault::Half, Fault::Interrupted, Fault::Eof];
        dev.inject(ctx, if kinds { &reads[..1] } else { &reads }, true);
    }
    // Superblock discovery is not the subject here.
    shared.pause(true);
    let device = open_device(dev, i);
    shared.pause(false);
    device
}

fn damage(image: &mut Image, sector: u64, kind: usize) {
    let at = sector * 512;
    let old = image.bytes(at, 512);
    let new: Vec<u8> = match kind {
        0 => vec![0; 512],
        1 => old.iter().map(|b| !b).collect(),
        2 => old.iter().enumerate().map(|(i, b)| b ^ (i as u8 | 1)).collect(),
        3 => image.bytes(at + 512 * if at + 1024 <= image.size { 1 } else { 0 }, 512),
        // A torn write: the second half is old.
        _ => old.iter().enumerate().map(|(i, b)| if i < 256 { b ^ 0x55 } else { *b }).collect(),
    };
    image.write(at, &new);
}
