//! C04 and C05: finding and decoding MD superblocks.

use crate::explore::{Ctx, Explorer};
use crate::md_array;
use crate::mdref::*;
use crate::simdev::{Fault, Image, SimDev};
use crate::{Check, Level};
use std::os::unix::ffi::OsStrExt;
use sut::verif::md::{
    ArrayUuid, MdAlgorithm, MdDevice, MdDeviceRole, MdDeviceSuperblock, Superblock,
    SuperblockVersion1,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            level: Level::Faults,
            rule: "One execution is a device of one size with a chosen state of each of the four places of superblocks (absent, valid, damaged in one of several ways, unreadable), opened with up to two (three) short, interrupted or failing device operations. What is found is compared with what the final bytes hold. Non-trivial: the device is big enough and at least one place is not empty, or the size is at the threshold.",
            assumptions: &["The order in which places are probed (1.2, 1.1, 1.0, 0.90) is as stated in the property."],
            note: "Exhaustive over the listed device sizes, sector sizes, states of each place, and fault places, on the real probing code.",
            run: c04,
        },
        Check {
            id: "C05",
            level: Level::Exploration,
            rule: "One execution decodes one superblock in which one or two fields have a value under test (each single bit, its complement, boundaries) over one of several backgrounds, and compares every field that is reported with the value that was written. Non-trivial: all of them.",
            assumptions: &["The reference encoder lays out superblocks as md_p.h does."],
            note: "Every bit of every field of both formats and both byte orders, over several backgrounds, with all fields compared each time; pairs of fields in the thorough tier; all 65536 role codes.",
            run: c05,
        },
    ]
}

const PLACES: [&str; 4] = ["1.2", "1.1", "1.0", "0.90"];

/// Where the places are, if the device has room for them.
fn places(size: u64) -> [Option<u64>; 4] {
    if size < 12288 {
        return [None; 4];
    }
    [
        Some(4096),
        Some(0),
        Some(superblock_offset(Flavour::V1_0, size)),
        (size >= 65536).then(|| superblock_offset(Flavour::V0Little, size)),
    ]
}

/// What is at a place of the final image: the number of events, if it is a
/// valid superblock.
fn recognise(image: &Image, place: usize, at: u64) -> Option<u64> {
    if at + 4096 > image.size {
        return None;
    }
    let b = image.bytes(at, 4096);
    let le = |at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
    let be = |at: usize| u32::from_be_bytes(b[at..at + 4].try_into().unwrap());
    if place < 3 {
        (le(0) == 0xa92b4efc && le(4) == 1)
            .then(|| u64::from_le_bytes(b[200..208].try_into().unwrap()))
    } else {
        let (get, big): (&dyn Fn(usize) -> u32, bool) = if le(0) == 0xa92b4efc {
            (&le, false)
        } else if be(0) == 0xa92b4efc {
            (&be, true)
        } else {
            return None;
        };
        let bad = (0..get(36).min(27) as usize)
            .any(|i| (0xff00..0xfffd).contains(&get(4 * (128 + 32 * i + 3))));
        (get(4) == 0 && !bad).then(|| {
            let (a, b) = (u64::from(get(156)), u64::from(get(160)));
            if big {
                a << 32 | b
            } else {
                b << 32 | a
            }
        })
    }
}

#[derive(PartialEq, Eq, Debug, Hash, Clone)]
enum Found {
    TooSmall,
    Missing,
    /// (major, minor (of version 1), events)
    Superblock(u32, u32, u64),
}

fn found(device: &MdDevice<SimDev>) -> Found {
    match &*device.superblock {
        MdDeviceSuperblock::TooSmall => Found::TooSmall,
        MdDeviceSuperblock::Missing => Found::Missing,
        MdDeviceSuperblock::Superblock(s) => {
            let minor = if s.major_version() == 1 { s.minor_version() } else { 90 };
            Found::Superblock(s.major_version(), minor, s.event_count().0)
        }
    }
}

fn expected(image: &Image, size: u64, readable: impl Fn(u64) -> bool) -> Found {
    expected_without(image, size, |_, at| readable(at))
}

fn expected_without(image: &Image, size: u64, readable: impl Fn(usize, u64) -> bool) -> Found {
    if size < 12288 {
        return Found::TooSmall;
    }
    for (place, at) in places(size).iter().enumerate() {
        let Some(at) = at else { continue };
        if !readable(place, *at) {
            continue;
        }
        if let Some(events) = recognise(image, place, *at) {
            return match place {
                0 => Found::Superblock(1, 2, events),
                1 => Found::Superblock(1, 1, events),
                2 => Found::Superblock(1, 0, events),
                _ => Found::Superblock(0, 90, events),
            };
        }
    }
    Found::Missing
}

/// The number of states that [`put`] knows for a place.
fn states(place: usize) -> usize {
    if place < 3 {
        6
    } else {
        8
    }
}

/// Puts something in a place; returns a description.
fn put(image: &mut Image, size: u64, place: usize, at: u64, state: usize) -> &'static str {
    if place < 3 {
        let flavour = [Flavour::V1_2, Flavour::V1_1, Flavour::V1_0][place];
        let mut spec = md_array::spec(flavour, 6, 2, 4, 8, 64, 16, 1);
        spec.device_size = size;
        let mut sb = spec.v1(1);
        sb.super_offset = at / 512;
        sb.events = 1000 + place as u64;
        let mut bytes = sb.encode();
        let what = match state {
            0 => return "nothing",
            1 => "valid",
            2 => {
                bytes[0] ^= 1;
                "wrong magic number (first byte)"
            }
            3 => {
                bytes[3] ^= 0x80;
                "wrong magic number (last byte)"
            }
            4 => {
                bytes[4] = 0;
                "major version 0"
            }
            _ => {
                bytes[7] = 1;
                "major version 0x1000001"
            }
        };
        image.write(at, &bytes);
        what
    } else {
        let flavour = if state % 2 == 0 { Flavour::V0Little } else { Flavour::V0Big };
        let spec = md_array::spec(flavour, 6, 2, 4, 8, 64, 0, 1);
        let mut sb = spec.v0(1);
        sb.events = 1003;
        let mut patch = None;
        let what = match state {
            0 => return "nothing",
            1 | 2 => "valid",
            3 => {
                patch = Some((0usize, 1u8));
                "wrong magic number"
            }
            4 | 5 => {
                patch = Some((if state == 4 { 4 } else { 7 }, 1));
                "major version 1"
            }
            6 => {
                sb.disks[3].1 = 0xff01;
                "invalid last descriptor"
            }
            _ => {
                sb.disks[0].1 = 0xfffc;
                "invalid first descriptor"
            }
        };
        let mut bytes = sb.encode();
        if let Some((at, mask)) = patch {
            bytes[at] ^= mask;
        }
        image.write(at, &bytes);
        what
    }
}

fn sizes(thorough: bool) -> Vec<u64> {
    let mut sizes = vec![0, 512, 4096, 8192, 11776, 12288, 12800, 16384, 20480];
    for base in [
        65536u64,
        131072,
        196608,
        1 << 20,
        1 << 31,
        1 << 32,
        1 << 40,
        1 << 41,
        (1 << 41) + (1 << 34),
        1 << 42,
        1 << 50,
        1 << 62,
    ] {
        for d in [-4096i64, -512, 0, 512, 3584, 4096, 4608, 8192, 32768] {
            sizes.push(base.checked_add_signed(d).unwrap());
        }
    }
    if thorough {
        // Every size up to just above 192 KiB, in sectors.
        sizes.extend((0..=400).map(|s| s * 512));
        sizes.extend((0..=136).map(|s| (1 << 41) + s * 512));
    } else {
        sizes.extend((0..=72).map(|s| (1 << 33) + s * 1024));
    }
    sizes.sort();
    sizes.dedup();
    sizes
}

fn c04(e: &mut Explorer) {
    let thorough = e.thorough;
    let sizes = sizes(thorough);

    e.family("places", |ctx| {
        let size = *ctx.pick(&sizes);
        let block_size = *ctx.pick(&[512u32, 1024, 4096]);
        if size % u64::from(block_size) != 0 {
            return Ok(());
        }
        let mut image = Image::new(size);
        let mut what = Vec::new();
        let mut any = false;
        // The version 0 and 1.1 superblocks may share a place; every order of
        // writing matters then.
        let order: [usize; 4] = if ctx.flag() { [3, 2, 1, 0] } else { [0, 1, 2, 3] };
        for place in order {
            let Some(at) = places(size)[place] else { continue };
            let state = ctx.choose(states(place));
            any |= state != 0;
            what.push((PLACES[place], at, put(&mut image, size, place, at, state)));
        }
        ctx.obs(&(size, block_size, &what));
        ctx.note(|| format!("{size} bytes, blocks of {block_size}: {what:?}"));
        if any || size == 12288 || size < 12288 {
            ctx.nontrivial();
        }
        ctx.step();
        let want = expected(&image, size, |_| true);
        let device = MdDevice::from_block_device(SimDev::new(image, block_size), Some("d"))
            .map_err(|e| format!("{size} bytes, {what:?}: error {e}"))?;
        let got = found(&device);
        if got != want {
            return Err(format!(
                "{size} bytes, blocks of {block_size}, {what:?}: expected {want:?}, found {got:?}"
            ));
        }
        Ok(())
    });

    e.family("small-devices", |ctx| {
        // Valid superblocks in the beginning of devices of any size.
        let size = ctx.choose(65) as u64 * 512;
        let place = ctx.choose(2);
        let mut image = Image::new(size.max(16384));
        put(&mut image, 16384, place, [4096, 0][place], 1);
        let image = image.resized(size);
        ctx.obs(&(size, place));
        ctx.nontrivial();
        ctx.step();
        let want = expected(&image, size, |_| true);
        match MdDevice::from_block_device(SimDev::new(image, 512), Some("d")) {
            Ok(device) if found(&device) == want => Ok(()),
            Ok(device) => Err(format!("{size} bytes: expected {want:?}, found {:?}", found(&device))),
            Err(e) => Err(format!("{size} bytes: expected {want:?}, got error {e}")),
        }
    });

    e.family("every-bit", |ctx| {
        // Every bit of magic number and version matters, others do not hide
        // the superblock.
        let flavour = *ctx.pick(&FLAVOURS);
        let size = 1 << 20;
        let mut spec = md_array::spec(flavour, 6, 2, 4, 8, 64, 16, 1);
        spec.device_size = size;
        let at = superblock_offset(flavour, size);
        let mut bytes = spec.superblock(2);
        let bit = ctx.choose(64);
        let invert = ctx.flag();
        if invert {
            bytes[bit / 8] ^= 1 << (bit % 8);
        }
        let mut image = Image::new(size);
        image.write(at, &bytes);
        ctx.obs(&(flavour, bit, invert));
        ctx.nontrivial();
        ctx.step();
        let want = expected(&image, size, |_| true);
        let device = MdDevice::from_block_device(SimDev::new(image, 512), Some("d"))
            .map_err(|e| format!("{flavour:?}: {e}"))?;
        if found(&device) != want {
            return Err(format!(
                "{flavour:?} with bit {bit} inverted ({invert}): expected {want:?}, found {:?}",
                found(&device)
            ));
        }
        Ok(())
    });

    e.family("descriptors", |ctx| {
        // Version 0: which descriptors count, with every count of devices.
        let flavour = *ctx.pick(&[Flavour::V0Little, Flavour::V0Big]);
        let nr_disks = ctx.range(0, 27);
        let which = ctx.choose(27);
        let role = *ctx.pick(&[0u32, 26, 0xfeff, 0xff01, 0xfffc, 0xfffd, 0xfffe, 0xffff]);
        let size = 1 << 20;
        let spec = md_array::spec(flavour, 6, 2, 4, 8, 64, 0, 1);
        let mut sb = spec.v0(0);
        sb.nr_disks = nr_disks as u32;
        sb.disks = (0..27).map(|i| (i, i, 6)).collect();
        sb.disks[which].1 = role;
        let mut image = Image::new(size);
        image.write(superblock_offset(flavour, size), &sb.encode());
        ctx.obs(&(flavour, nr_disks, which, role));
        ctx.nontrivial();
        ctx.step();
        let want = expected(&image, size, |_| true);
        let device = MdDevice::from_block_device(SimDev::new(image, 512), Some("d"))
            .map_err(|e| format!("{flavour:?}: {e}"))?;
        if found(&device) != want {
            return Err(format!(
                "{flavour:?} with {nr_disks} devices and role {role:#x} in descriptor {which}: expected {want:?}, found {:?}",
                found(&device)
            ));
        }
        Ok(())
    });

    e.family("unreadable", |ctx| {
        let size = *ctx.pick(&[65536u64, 131072, 1 << 20, (1 << 20) + 36864]);
        let block_size = *ctx.pick(&[512u32, 4096]);
        let mut image = Image::new(size);
        let mut what = Vec::new();
        let mut bad: Vec<u64> = Vec::new();
        for place in 0..4 {
            let at = places(size)[place].unwrap();
            match ctx.choose(4) {
                0 => {}
                1 => {
                    put(&mut image, size, place, at, 1);
                    what.push((PLACES[place], "valid"));
                }
                2 => {
                    put(&mut image, size, place, at, 1);
                    bad.push(at);
                    what.push((PLACES[place], "valid, unreadable at the start"));
                }
                _ => {
                    put(&mut image, size, place, at, 1);
                    bad.push(at + 3584);
                    what.push((PLACES[place], "valid, unreadable at the end"));
                }
            }
        }
        let bs = u64::from(block_size);
        let covers = |at: u64| !bad.iter().any(|b| *b < at + 4096 && at < *b + 512);
        let want = expected(&image, size, covers);
        let mut dev = SimDev::new(image, block_size);
        for b in &bad {
            dev = dev.bad_range(b / bs * bs, b / bs * bs + 512.min(bs));
        }
        ctx.obs(&(size, block_size, &what));
        ctx.note(|| format!("{size} bytes: {what:?}"));
        if !bad.is_empty() {
            ctx.nontrivial();
        }
        ctx.step();
        // With 4096-byte sectors a whole sector is unreadable.
        let device = MdDevice::from_block_device(dev, Some("d"))
            .map_err(|e| format!("{size} bytes, {what:?}: error {e}"))?;
        if found(&device) != want {
            return Err(format!(
                "{size} bytes, {what:?}: expected {want:?}, found {:?}",
                found(&device)
            ));
        }
        Ok(())
    });

    let bound = if thorough { 3 } else { 2 };
    e.bounded("faults", bound, |ctx| {
        let size = *ctx.pick(&[65536u64, 1 << 20]);
        let mut image = Image::new(size);
        let mut what = Vec::new();
        for place in 0..4 {
            let at = places(size)[place].unwrap();
            let state = ctx.choose(3);
            put(&mut image, size, place, at, [0, 1, 4][state]);
            what.push((PLACES[place], state));
        }
        let dev = SimDev::new(image.clone(), 512);
        dev.inject(
            ctx,
            &[Fault::OneByte, Fault::Half, Fault::Interrupted, Fault::Error, Fault::Eof],
            true,
        );
        let shared = dev.shared.clone();
        let result = MdDevice::from_block_device(dev, Some("d"));
        ctx.step();
        let faults = shared.faults_injected.borrow();
        let hard = faults.iter().any(|(_, f)| matches!(f, Fault::Error | Fault::Eof));
        ctx.obs(&(size, &what, format!("{faults:?}")));
        ctx.note(|| format!("{size} bytes: {what:?}, faults {faults:?}"));
        if !faults.is_empty() {
            ctx.nontrivial();
        }
        let all = expected(&image, size, |_| true);
        match result {
            Err(e) if !hard => Err(format!("{what:?}: error {e} after {faults:?}")),
            Err(_) => Ok(()),
            Ok(device) => {
                let got = found(&device);
                // What is found must really be there, at least.
                let hits: Vec<u64> = faults
                    .iter()
                    .filter_map(|(a, f)| match (a, f) {
                        (crate::simdev::Access::Read { offset, .. }, Fault::Error | Fault::Eof) => {
                            Some(*offset)
                        }
                        (crate::simdev::Access::Seek(offset), Fault::Error) => Some(*offset),
                        _ => None,
                    })
                    .collect();
                // A place is lost at most if an operation there failed; places
                // may overlap, so which were lost is not determined.
                let maybe: Vec<usize> = (0..4)
                    .filter(|p| {
                        let at = places(size)[*p].unwrap();
                        hits.iter().any(|h| (at..at + 4096).contains(h))
                    })
                    .collect();
                let allowed = (0..1u32 << maybe.len())
                    .filter(|set| set.count_ones() as usize <= hits.len())
                    .any(|set| {
                        let lost: Vec<usize> = (0..maybe.len())
                            .filter(|i| set >> i & 1 == 1)
                            .map(|i| maybe[i])
                            .collect();
                        expected_without(&image, size, |place, _| !lost.contains(&place)) == got
                    });
                if !allowed {
                    return Err(format!(
                        "{size} bytes, {what:?}, faults {faults:?}: expected {all:?} (unless at the faults), found {got:?}"
                    ));
                }
                Ok(())
            }
        }
    });
}

// ---------------------------------------------------------------------------

/// (device number, spare, faulty, journal) of a role; `None` if it is one that
/// neither Linux nor this program gives a meaning that matters.
fn role_of(value: u32) -> Option<(Option<u32>, bool, bool, bool)> {
    match value {
        0..=0xfeff => Some((Some(value), false, false, false)),
        // Linux's MD_DISK_ROLE_MAX: ambiguous.
        0xff00 => None,
        0xffff => Some((None, true, false, false)),
        0xfffe => Some((None, false, true, false)),
        0xfffd => Some((None, false, false, true)),
        _ => Some((None, false, false, false)),
    }
}

fn check_role(role: &MdDeviceRole, value: u32) -> Result<(), String> {
    let Some(want) = role_of(value) else {
        return Ok(());
    };
    let got = (
        role.device_number().map(|d| d.0),
        role.is_spare(),
        role.is_faulty(),
        role.is_journal(),
    );
    let valid = want.0.is_some() || want.1 || want.2 || want.3;
    if got != want || role.is_valid() != valid || role.is_invalid() == valid {
        return Err(format!(
            "role {value:#x} should be (device, spare, faulty, journal) {want:?}, valid {valid}, but is {got:?}, valid {}",
            role.is_valid()
        ));
    }
    Ok(())
}

pub struct Want {
    pub major: u32,
    pub minor: Option<u32>,
    pub uuid: ArrayUuid,
    pub name: Option<Vec<u8>>,
    pub level: u32,
    pub layout: u32,
    pub size: u64,
    pub chunk: u32,
    pub raid_disks: u32,
    pub reshape: Option<(u32, u32, u64, u32, u32, Option<u32>)>,
    pub data_offset: u64,
    pub slot: usize,
    pub events: u64,
    pub roles: Vec<u32>,
}

pub fn trimmed(name: &[u8]) -> Vec<u8> {
    name.split(|b| *b == 0).next().unwrap().to_vec()
}

fn compare(s: &dyn Superblock, w: &Want) -> Result<(), String> {
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {
            let (got, want) = ($got, $want);
            if got != want {
                return Err(format!("{}: written {want:?}, reported {got:?}", $what));
            }
        };
    }
    same!("validity", s.valid(), true);
    same!("major version", s.major_version(), w.major);
    if let Some(minor) = w.minor {
        same!("minor version", s.minor_version(), minor);
    }
    same!("UUID", s.array_uuid(), w.uuid.clone());
    same!("name", s.array_name().map(|n| trimmed(n.as_bytes())), w.name.clone());
    same!("algorithm", s.algorithm(), MdAlgorithm::from_level_and_layout(w.level, w.layout));
    same!("size", s.sectors_per_device().0, w.size);
    same!("chunk size", s.chunk_size().0, w.chunk);
    same!("device count", s.raid_device_count().0, w.raid_disks);
    same!("data offset", s.data_offset().0, w.data_offset);
    same!("slot", s.device_role_index(), w.slot);
    same!("events", s.event_count().0, w.events);
    match (s.reshape_status(), &w.reshape) {
        (None, None) => {}
        (Some(got), Some(want)) => {
            let (level, layout, position, delta, chunk, offset) = *want;
            same!(
                "new algorithm",
                got.new_algorithm,
                MdAlgorithm::from_level_and_layout(level, layout)
            );
            same!("reshape position", got.reshape_position.0, position);
            same!("delta disks", got.delta_devices.0, delta);
            same!("new chunk size", got.new_chunk_size.0, chunk);
            if let Some(offset) = offset {
                same!("new offset", got.new_offset, offset);
            }
        }
        (got, want) => {
            return Err(format!(
                "reshape state: written {want:?}, reported {}",
                if got.is_some() { "one" } else { "none" }
            ))
        }
    }
    let roles = s.device_roles();
    same!("number of roles", roles.len(), w.roles.len());
    for (i, (got, want)) in roles.iter().zip(&w.roles).enumerate() {
        check_role(got, *want).map_err(|e| format!("slot {i}: {e}"))?;
    }
    Ok(())
}

pub fn want_v1(sb: &V1, minor: u32) -> Want {
    Want {
        major: 1,
        minor: Some(minor),
        uuid: ArrayUuid::Long(sb.uuid),
        name: Some(trimmed(&sb.name)),
        level: sb.level,
        layout: sb.layout,
        size: sb.size,
        chunk: sb.chunk,
        raid_disks: sb.raid_disks,
        reshape: (sb.features & 4 != 0).then_some((
            sb.new_level,
            sb.new_layout,
            sb.reshape_position,
            sb.delta_disks,
            sb.new_chunk,
            Some(sb.new_offset),
        )),
        data_offset: sb.data_offset,
        slot: sb.dev_number as usize,
        events: sb.events,
        roles: (0..sb.max_dev.min(1920))
            .map(|i| u32::from(sb.roles.get(i as usize).copied().unwrap_or(0xffff)))
            .collect(),
    }
}

pub fn want_v0(sb: &V0) -> Want {
    let uuid = if sb.minor < 90 {
        ArrayUuid::from_u32(sb.uuid[0])
    } else {
        ArrayUuid::Long(
            sb.uuid.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<_>>().try_into().unwrap(),
        )
    };
    Want {
        major: 0,
        minor: Some(sb.minor),
        uuid,
        name: None,
        level: sb.level,
        layout: sb.layout,
        size: u64::from(sb.size) * 2,
        chunk: sb.chunk / 512,
        raid_disks: sb.raid_disks,
        reshape: (sb.minor > 90).then_some((
            sb.new_level,
            sb.new_layout,
            sb.reshape_position,
            sb.delta_disks,
            sb.new_chunk / 512,
            None,
        )),
        data_offset: 0,
        slot: sb.this_disk.0 as usize,
        events: sb.events,
        roles: sb.disks.iter().take(sb.nr_disks as usize).map(|d| d.1).collect(),
    }
}

/// Reads a superblock back through a device.
fn decode(bytes: &[u8], flavour: Flavour) -> Result<MdDevice<SimDev>, String> {
    let size = 1 << 18;
    let mut image = Image::new(size);
    image.write(superblock_offset(flavour, size), bytes);
    MdDevice::from_block_device(SimDev::new(image, 4096), Some("d")).map_err(|e| format!("error {e}"))
}

fn compare_device(device: &MdDevice<SimDev>, want: &Want) -> Result<(), String> {
    match &*device.superblock {
        MdDeviceSuperblock::Superblock(s) => compare(s.as_ref(), want),
        _ => Err("the superblock was not found".into()),
    }
}

/// All values to try for a field of so many bits.
fn values(bits: u32) -> Vec<u64> {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut v = vec![0, mask, mask >> 1, 0x0123_4567_89ab_cdef & mask, 0xfedc_ba98_7654_3210 & mask];
    for b in 0..bits {
        v.push(1 << b);
        v.push(mask ^ (1 << b));
    }
    v.sort();
    v.dedup();
    v
}

fn few_values(bits: u32) -> Vec<u64> {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let mut v = vec![0, mask, 1, 1 << (bits - 1), 0x0123_4567_89ab_cdef & mask];
    v.sort();
    v.dedup();
    v
}

const V1_FIELDS: [(&str, u32); 26] = [
    ("features", 32),
    ("uuid, first half", 64),
    ("uuid, second half", 64),
    ("name, first 8", 64),
    ("name, last 8", 64),
    ("ctime", 64),
    ("level", 32),
    ("layout", 32),
    ("size", 64),
    ("chunk", 32),
    ("raid_disks", 32),
    ("bitmap_offset", 32),
    ("new_level", 32),
    ("reshape_position", 64),
    ("delta_disks", 32),
    ("new_layout", 32),
    ("new_chunk", 32),
    ("new_offset", 32),
    ("data_offset", 64),
    ("data_size", 64),
    ("recovery_offset", 64),
    ("dev_number", 32),
    ("utime", 64),
    ("events", 64),
    ("resync_offset", 64),
    ("max_dev", 32),
];

fn set_v1(sb: &mut V1, field: usize, v: u64) {
    match field {
        0 => sb.features = v as u32,
        1 => sb.uuid[..8].copy_from_slice(&v.to_le_bytes()),
        2 => sb.uuid[8..].copy_from_slice(&v.to_le_bytes()),
        3 => sb.name[..8].copy_from_slice(&v.to_le_bytes()),
        4 => {
            sb.name[..24].fill(b'x');
            sb.name[24..].copy_from_slice(&v.to_le_bytes());
        }
        5 => sb.ctime = v,
        6 => sb.level = v as u32,
        7 => sb.layout = v as u32,
        8 => sb.size = v,
        9 => sb.chunk = v as u32,
        10 => sb.raid_disks = v as u32,
        11 => sb.bitmap_offset = v as u32,
        12 => sb.new_level = v as u32,
        13 => sb.reshape_position = v,
        14 => sb.delta_disks = v as u32,
        15 => sb.new_layout = v as u32,
        16 => sb.new_chunk = v as u32,
        17 => sb.new_offset = v as u32,
        18 => sb.data_offset = v,
        19 => sb.data_size = v,
        20 => sb.recovery_offset = v,
        21 => sb.dev_number = v as u32,
        22 => sb.utime = v,
        23 => sb.events = v,
        24 => sb.resync_offset = v,
        _ => sb.max_dev = v as u32,
    }
}

fn background_v1(kind: usize) -> V1 {
    let spec = md_array::spec(Flavour::V1_2, 6, 2, 5, 128, 1 << 20, 2048, 1);
    let mut sb = spec.v1(3);
    match kind {
        // As created by mdadm, and under reshape.
        0 => {}
        1 => {
            sb.features = 4 | 64;
            sb.new_level = 6;
            sb.new_layout = 10;
            sb.reshape_position = 0x0102_0304_0506_0708;
            sb.delta_disks = 0xffff_ffff;
            sb.new_chunk = 0x1122_3344;
            sb.new_offset = 0x99aa_bbcc;
        }
        // Everything set.
        2 => {
            for (field, (_, bits)) in V1_FIELDS.iter().enumerate() {
                if field != 25 {
                    set_v1(&mut sb, field, if *bits == 64 { u64::MAX } else { (1 << bits) - 1 });
                }
            }
            sb.device_uuid = [0xff; 16];
            sb.super_offset = u64::MAX;
        }
        // Everything zero.
        _ => {
            for (field, _) in V1_FIELDS.iter().enumerate() {
                if field != 25 {
                    set_v1(&mut sb, field, 0);
                }
            }
        }
    }
    sb
}

const V0_FIELDS: [(&str, u32); 22] = [
    ("minor", 32),
    ("uuid 0", 32),
    ("uuid 1", 32),
    ("uuid 2", 32),
    ("uuid 3", 32),
    ("ctime", 32),
    ("level", 32),
    ("size", 32),
    ("raid_disks", 32),
    ("utime", 32),
    ("state", 32),
    ("events", 64),
    ("cp_events", 64),
    ("recovery_cp", 32),
    ("reshape_position", 64),
    ("new_level", 32),
    ("delta_disks", 32),
    ("new_layout", 32),
    ("new_chunk", 23),
    ("layout", 32),
    ("chunk", 23),
    ("this slot", 32),
];

fn set_v0(sb: &mut V0, field: usize, v: u64) {
    let w = v as u32;
    match field {
        0 => sb.minor = w,
        1..=4 => sb.uuid[field - 1] = w,
        5 => sb.ctime = w,
        6 => sb.level = w,
        7 => sb.size = w,
        8 => sb.raid_disks = w,
        9 => sb.utime = w,
        10 => sb.state = w,
        11 => sb.events = v,
        12 => sb.cp_events = v,
        13 => sb.recovery_cp = w,
        14 => sb.reshape_position = v,
        15 => sb.new_level = w,
        16 => sb.delta_disks = w,
        17 => sb.new_layout = w,
        18 => sb.new_chunk = w << 9,
        19 => sb.layout = w,
        20 => sb.chunk = w << 9,
        _ => sb.this_disk.0 = w,
    }
}

fn background_v0(flavour: Flavour, kind: usize) -> V0 {
    let spec = md_array::spec(flavour, 6, 2, 5, 128, 1 << 20, 0, 1);
    let mut sb = spec.v0(3);
    match kind {
        0 => {}
        1 => {
            sb.minor = 91;
            sb.new_level = 6;
            sb.new_layout = 10;
            sb.reshape_position = 0x0102_0304_0506_0708;
            sb.delta_disks = 0xffff_ffff;
            sb.new_chunk = 0x1122_3400;
        }
        2 => {
            for (field, (_, bits)) in V0_FIELDS.iter().enumerate() {
                let v = if *bits == 64 { u64::MAX } else { (1 << bits) - 1 };
                set_v0(&mut sb, field, v);
            }
        }
        _ => {
            for (field, _) in V0_FIELDS.iter().enumerate() {
                set_v0(&mut sb, field, 0);
            }
        }
    }
    sb
}

fn c05(e: &mut Explorer) {
    let thorough = e.thorough;
    let v1_flavours = [Flavour::V1_2, Flavour::V1_1, Flavour::V1_0];
    let minor = |flavour: Flavour| match flavour {
        Flavour::V1_0 => 0,
        Flavour::V1_1 => 1,
        _ => 2,
    };
    let v0_flavours = [Flavour::V0Little, Flavour::V0Big];

    let v1_case = |ctx: &Ctx, flavour: Flavour, sb: &V1, what: &str| -> Result<(), String> {
        ctx.nontrivial();
        ctx.step();
        let bytes = sb.encode();
        ctx.obs(&bytes);
        ctx.obs(&flavour);
        ctx.note(|| format!("{flavour:?}: {what}"));
        let device = decode(&bytes, flavour).map_err(|e| format!("{flavour:?}, {what}: {e}"))?;
        compare_device(&device, &want_v1(sb, minor(flavour)))
            .map_err(|e| format!("{flavour:?}, {what}: {e}"))?;
        // What only version 1 has.
        let s = SuperblockVersion1::new(bytes, minor(flavour));
        let feature = |bit: u32| sb.features & bit != 0;
        let bitmap = feature(1).then_some(sb.bitmap_offset);
        if s.bitmap_offset() != bitmap {
            return Err(format!("{what}: bitmap offset {:?}, written {bitmap:?}", s.bitmap_offset()));
        }
        let recovery = feature(2).then_some(sb.recovery_offset);
        if s.recovery_offset() != recovery {
            return Err(format!("{what}: recovery offset {:?}, written {recovery:?}", s.recovery_offset()));
        }
        let journal = feature(512).then_some(sb.recovery_offset);
        if s.journal_tail() != journal {
            return Err(format!("{what}: journal tail {:?}, written {journal:?}", s.journal_tail()));
        }
        let ppl = feature(1024).then_some((sb.bitmap_offset as i16, (sb.bitmap_offset >> 16) as u16));
        let got = s.ppl_info().map(|p| (p.offset().read(), p.size().read()));
        if got != ppl {
            return Err(format!("{what}: PPL {got:?}, written {ppl:?}"));
        }
        Ok(())
    };

    e.family("v1-fields", |ctx| {
        let flavour = *ctx.pick(&v1_flavours);
        let kind = ctx.choose(4);
        let field = ctx.choose(V1_FIELDS.len());
        let value = *ctx.pick(&values(V1_FIELDS[field].1));
        let mut sb = background_v1(kind);
        set_v1(&mut sb, field, value);
        v1_case(ctx, flavour, &sb, &format!("background {kind}, {} = {value:#x}", V1_FIELDS[field].0))
    });

    e.family("v1-pairs", |ctx| {
        let kind = ctx.choose(if thorough { 4 } else { 2 });
        let a = ctx.choose(V1_FIELDS.len());
        let b = ctx.choose(V1_FIELDS.len());
        if b >= a {
            return Ok(());
        }
        let va = *ctx.pick(&few_values(V1_FIELDS[a].1));
        let vb = *ctx.pick(&few_values(V1_FIELDS[b].1));
        let mut sb = background_v1(kind);
        set_v1(&mut sb, a, va);
        set_v1(&mut sb, b, vb);
        let what = format!("background {kind}, {} = {va:#x}, {} = {vb:#x}", V1_FIELDS[a].0, V1_FIELDS[b].0);
        v1_case(ctx, Flavour::V1_2, &sb, &what)
    });

    e.family("v1-features", |ctx| {
        // Every combination of the features that change what is reported.
        let mut sb = background_v1(1);
        sb.features = 0;
        for bit in [1u32, 2, 4, 8, 16, 32, 64, 256, 512, 1024, 2048, 4096] {
            if ctx.flag() {
                sb.features |= bit;
            }
        }
        sb.bitmap_offset = 0x8004_fffe;
        sb.recovery_offset = 0x1122_3344_5566_7788;
        let what = format!("features {:#x}", sb.features);
        v1_case(ctx, Flavour::V1_1, &sb, &what)
    });

    e.family("v1-roles", |ctx| {
        // Every role code in turn, in one of several slots.
        let block = ctx.choose(64);
        let at = *ctx.pick(&[0usize, 1, 127]);
        let mut sb = background_v1(0);
        sb.max_dev = 1152;
        for i in 0..1024 {
            let mut roles = vec![0xffff; 1152];
            for (j, role) in roles.iter_mut().enumerate().take(1024) {
                *role = (block * 1024 + (i + j) % 1024) as u16;
            }
            roles[at] = (block * 1024 + i) as u16;
            sb.roles = roles;
            if i % 256 != 0 {
                continue;
            }
            v1_case(ctx, Flavour::V1_2, &sb, &format!("roles from {:#x}", block * 1024 + i))?;
        }
        Ok(())
    });

    e.family("v1-max-dev", |ctx| {
        let max_dev = *ctx.pick(&[0u32, 1, 2, 3, 4, 5, 127, 128, 384, 1919, 1920, 1921, 2048, 65535, 65536, u32::MAX]);
        let mut sb = background_v1(0);
        sb.max_dev = max_dev;
        sb.roles = (0..1920).map(|i| i as u16).collect();
        v1_case(ctx, Flavour::V1_2, &sb, &format!("{max_dev} role slots"))
    });

    e.family("v1-names", |ctx| {
        // Names of every length, of unusual bytes, with rest after the NUL.
        let len = ctx.range(0, 32);
        let byte = *ctx.pick(&[1u8, b'a', b':', b'/', 0x7f, 0x80, 0xff]);
        let rest = *ctx.pick(&[0u8, b'z']);
        let mut sb = background_v1(0);
        sb.name = [rest; 32];
        sb.name[..len].fill(byte);
        if len < 32 {
            sb.name[len] = 0;
        }
        v1_case(ctx, Flavour::V1_2, &sb, &format!("name of {len} bytes {byte:#x}, then {rest:#x}"))
    });

    let v0_case = |ctx: &Ctx, flavour: Flavour, sb: &V0, what: &str| -> Result<(), String> {
        ctx.nontrivial();
        ctx.step();
        let bytes = sb.encode();
        ctx.obs(&bytes);
        ctx.note(|| format!("{flavour:?}: {what}"));
        let device = decode(&bytes, flavour).map_err(|e| format!("{flavour:?}, {what}: {e}"))?;
        compare_device(&device, &want_v0(sb)).map_err(|e| format!("{flavour:?}, {what}: {e}"))
    };

    e.family("v0-fields", |ctx| {
        let flavour = *ctx.pick(&v0_flavours);
        let kind = ctx.choose(4);
        let field = ctx.choose(V0_FIELDS.len());
        let value = *ctx.pick(&values(V0_FIELDS[field].1));
        let mut sb = background_v0(flavour, kind);
        set_v0(&mut sb, field, value);
        v0_case(ctx, flavour, &sb, &format!("background {kind}, {} = {value:#x}", V0_FIELDS[field].0))
    });

    e.family("v0-minor", |ctx| {
        let flavour = *ctx.pick(&v0_flavours);
        let kind = ctx.choose(4);
        let mut sb = background_v0(flavour, kind);
        sb.minor = ctx.choose(256) as u32;
        v0_case(ctx, flavour, &sb, &format!("background {kind}, minor version {}", sb.minor))
    });

    e.family("v0-pairs", |ctx| {
        let flavour = *ctx.pick(&v0_flavours);
        let kind = ctx.choose(if thorough { 4 } else { 2 });
        let a = ctx.choose(V0_FIELDS.len());
        let b = ctx.choose(V0_FIELDS.len());
        if b >= a {
            return Ok(());
        }
        let va = *ctx.pick(&few_values(V0_FIELDS[a].1));
        let vb = *ctx.pick(&few_values(V0_FIELDS[b].1));
        let mut sb = background_v0(flavour, kind);
        set_v0(&mut sb, a, va);
        set_v0(&mut sb, b, vb);
        let what = format!("background {kind}, {} = {va:#x}, {} = {vb:#x}", V0_FIELDS[a].0, V0_FIELDS[b].0);
        v0_case(ctx, flavour, &sb, &what)
    });

    e.family("v0-descriptors", |ctx| {
        // Every descriptor, with every count, and roles unlike the numbers.
        let flavour = *ctx.pick(&v0_flavours);
        let nr_disks = ctx.range(0, 27) as u32;
        let shift = ctx.choose(3) as u32;
        let special = ctx.choose(28);
        let role = *ctx.pick(&[0xfffdu32, 0xfffe, 0xffff, 0xfeff]);
        let this = *ctx.pick(&[0u32, 13, 26]);
        let mut sb = background_v0(flavour, 0);
        sb.nr_disks = nr_disks;
        sb.disks = (0..27).map(|i| (i, (i * 5 + shift) % 27, i * 0x11)).collect();
        if special < 27 {
            sb.disks[special].1 = role;
        }
        sb.this_disk = (this, (this + 1) % 27, 6);
        let what = format!("{nr_disks} devices, shift {shift}, role {role:#x} at {special}, this is {this}");
        v0_case(ctx, flavour, &sb, &what)
    });
}
