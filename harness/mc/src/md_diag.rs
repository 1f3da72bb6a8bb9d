//! C06 and C07: assembling members that disagree, and diagnosing them.

use crate::explore::{Ctx, Explorer};
use crate::md_array;
use crate::md_sb::{trimmed, want_v0, want_v1, Want};
use crate::mdref::*;
use crate::simdev::{Access, Image, Shared, SimDev};
use crate::{Check, Level};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::rc::Rc;
use sut::verif::md::{
    ArrayUuid, Diagnosis, MdAlgorithm, MdArray, MdDevice, MdDeviceId, MdDeviceRole, ReshapeStatus,
};
use sut::verif::BlockDevice;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C06",
            level: Level::Exploration,
            rule: "One execution assembles one sequence of members whose superblocks were changed in up to two (three) entries of role tables, slots or shared attributes, and compares the diagnosis, the size and every block with the reference for that set of members, which does not depend on the order. Non-trivial: more than one member is listed.",
            assumptions: &["What a set of members means is defined by the reference in md_diag.rs: definite roles win over spare, faulty and unused ones; a slot with two definite roles, and a number with two devices, is not used."],
            note: "All listing orders of all multisets of up to five (six) members, and all role tables within two (three) changed entries, on the real assembly code, with all blocks compared.",
            run: c06,
        },
        Check {
            id: "C07",
            level: Level::Exploration,
            rule: "One execution diagnoses one list of members with chosen values of each shared attribute, and compares the complete diagnosis (every problem, every value and every device) with the reference. Non-trivial: at least one device differs in kind or value.",
            assumptions: &["Names are compared up to their first NUL; version 0 superblocks have no name."],
            note: "Exhaustive over assignments of values to devices for all single attributes and pairs, every bit of every attribute, and all claims of slots by up to five (six) devices, groups of any sizes among up to 16 (27), and all lists of kinds of devices up to four (five).",
            run: c07,
        },
    ]
}

// ---------------------------------------------------------------------------
// Diagnoses in a form that can be compared.

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
struct Canon(BTreeMap<&'static str, BTreeMap<String, BTreeSet<usize>>>);

fn role_text(role: &MdDeviceRole) -> String {
    match role.device_number() {
        Some(n) => n.0.to_string(),
        None if role.is_spare() => "spare".into(),
        None if role.is_faulty() => "faulty".into(),
        None if role.is_journal() => "journal".into(),
        None => "unused".into(),
    }
}

fn role_number_text(role: u32) -> String {
    match role {
        0..=0xfeff => role.to_string(),
        0xffff => "spare".into(),
        0xfffe => "faulty".into(),
        0xfffd => "journal".into(),
        _ => "unused".into(),
    }
}

fn uuid_text(uuid: &ArrayUuid) -> String {
    match uuid {
        ArrayUuid::Short(b) => format!("{b:x?}"),
        ArrayUuid::Long(b) => format!("{b:x?}"),
    }
}

fn algorithm_text(level: u32, layout: u32) -> String {
    format!("{:?}", MdAlgorithm::from_level_and_layout(level, layout))
}

fn reshape_text(reshape: &Option<ReshapeStatus>) -> String {
    match reshape {
        None => "none".into(),
        Some(r) => format!(
            "{:?} {} {} {} {}",
            r.new_algorithm,
            r.reshape_position.0,
            r.delta_devices.0,
            r.new_chunk_size.0,
            r.new_offset
        ),
    }
}

/// The diagnosis in terms of the places of devices in the list `ids`.
fn canon(d: &Diagnosis, ids: &[Rc<MdDeviceId>]) -> Result<Canon, String> {
    let place = |id: &Rc<MdDeviceId>| {
        ids.iter()
            .position(|other| other == id)
            .ok_or_else(|| format!("the diagnosis names a device {id} that was not listed"))
    };
    let mut canon = Canon::default();
    macro_rules! set {
        ($name:literal, $field:ident) => {
            if let Some(set) = &d.$field {
                let devices = set.iter().map(&place).collect::<Result<_, _>>()?;
                canon.0.insert($name, BTreeMap::from([(String::new(), devices)]));
            }
        };
    }
    macro_rules! map {
        ($name:literal, $field:ident, $key:ident => $text:expr) => {
            if let Some(map) = &d.$field {
                let mut out = BTreeMap::new();
                for ($key, ids) in map {
                    let devices: BTreeSet<usize> =
                        ids.iter().map(&place).collect::<Result<_, _>>()?;
                    if devices.len() != ids.len() {
                        return Err(format!("{}: a device is named twice: {ids:?}", $name));
                    }
                    let text: String = $text;
                    if out.insert(text.clone(), devices).is_some() {
                        return Err(format!("{}: value {text} is there twice", $name));
                    }
                }
                canon.0.insert($name, out);
            }
        };
    }
    set!("too small", device_too_small_problem);
    set!("no superblock", missing_superblock_problem);
    map!("uuid", array_uuid_problem, uuid => uuid_text(uuid));
    map!("name", array_name_problem, name => format!("{:?}", trimmed(name.as_bytes())));
    map!("algorithm", algorithm_problem, algorithm => format!("{algorithm:?}"));
    map!("size", size_problem, size => size.0.to_string());
    map!("chunk", chunk_size_problem, size => size.0.to_string());
    map!("devices", device_count_problem, count => count.0.to_string());
    map!("reshape", reshape_problem, reshape => reshape_text(reshape));
    map!("events", event_count_problem, count => count.0.to_string());
    map!("slot", device_role_index_problem, slot => slot.to_string());
    map!("roles", device_roles_problem, roles => {
        let roles: Vec<_> = roles.iter().map(role_text).collect();
        roles.join(" ")
    });
    Ok(canon)
}

/// What a listed device is.
#[derive(Clone)]
#[allow(clippy::large_enum_variant)]
enum Member {
    Blank,
    Small,
    V1(V1, Flavour),
    V0(V0),
}

impl Member {
    fn want(&self) -> Option<Want> {
        match self {
            Member::Blank | Member::Small => None,
            Member::V1(sb, flavour) => Some(want_v1(
                sb,
                match flavour {
                    Flavour::V1_0 => 0,
                    Flavour::V1_1 => 1,
                    _ => 2,
                },
            )),
            Member::V0(sb) => Some(want_v0(sb)),
        }
    }

    fn flavour(&self) -> Flavour {
        match self {
            Member::V1(_, flavour) => *flavour,
            Member::V0(sb) if sb.big_endian => Flavour::V0Big,
            _ => Flavour::V0Little,
        }
    }

    /// Writes the superblock to a device with data.
    fn put(&self, image: &mut Image) {
        match self {
            Member::Blank => {}
            Member::Small => *image = image.resized(8192),
            Member::V1(sb, flavour) => {
                image.write(superblock_offset(*flavour, image.size), &sb.encode())
            }
            Member::V0(sb) => {
                image.write(superblock_offset(self.flavour(), image.size), &sb.encode())
            }
        }
    }

    fn of(spec: &ArraySpec, device: u32) -> Self {
        match spec.flavour {
            Flavour::V0Little | Flavour::V0Big => Member::V0(spec.v0(device)),
            flavour => Member::V1(spec.v1(device), flavour),
        }
    }
}

/// What the diagnosis should be.
fn expected_diagnosis(members: &[&Member]) -> Canon {
    let mut canon = Canon::default();
    let kind = |f: &dyn Fn(&Member) -> bool| -> BTreeSet<usize> {
        (0..members.len()).filter(|i| f(members[*i])).collect()
    };
    let small = kind(&|m| matches!(m, Member::Small));
    if !small.is_empty() {
        canon.0.insert("too small", BTreeMap::from([(String::new(), small)]));
    }
    let blank = kind(&|m| matches!(m, Member::Blank));
    if !blank.is_empty() {
        canon.0.insert("no superblock", BTreeMap::from([(String::new(), blank)]));
    }
    let wants: Vec<(usize, Want)> = members
        .iter()
        .enumerate()
        .filter_map(|(i, m)| m.want().map(|w| (i, w)))
        .collect();
    let group = |f: &dyn Fn(&Want) -> Option<String>| {
        let mut map: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for (i, want) in &wants {
            if let Some(key) = f(want) {
                map.entry(key).or_default().insert(*i);
            }
        }
        map
    };
    let mut shared = |name: &'static str, f: &dyn Fn(&Want) -> Option<String>| {
        let map = group(f);
        if map.len() > 1 {
            canon.0.insert(name, map);
        }
    };
    shared("uuid", &|w| Some(uuid_text(&w.uuid)));
    shared("name", &|w| w.name.as_ref().map(|n| format!("{n:?}")));
    shared("algorithm", &|w| Some(algorithm_text(w.level, w.layout)));
    shared("size", &|w| Some(w.size.to_string()));
    shared("chunk", &|w| Some(w.chunk.to_string()));
    shared("devices", &|w| Some(w.raid_disks.to_string()));
    shared("reshape", &|w| {
        Some(match &w.reshape {
            None => "none".into(),
            Some((level, layout, position, delta, chunk, offset)) => format!(
                "{} {position} {delta} {chunk} {}",
                algorithm_text(*level, *layout),
                offset.unwrap_or(0)
            ),
        })
    });
    shared("events", &|w| Some(w.events.to_string()));
    shared("roles", &|w| {
        let roles: Vec<_> = w.roles.iter().map(|r| role_number_text(*r)).collect();
        Some(roles.join(" "))
    });
    let mut slots = group(&|w| Some(w.slot.to_string()));
    slots.retain(|_, devices| devices.len() > 1);
    if !slots.is_empty() {
        canon.0.insert("slot", slots);
    }
    canon
}

/// Opens the devices in the given order; the diagnosis is in terms of `order`
/// items.
fn open(images: &[Image], order: &[usize]) -> Opened {
    let mut logs = Vec::new();
    let devices: Vec<Rc<MdDevice<SimDev>>> = order
        .iter()
        .map(|i| {
            let dev = SimDev::new(images[*i].clone(), 512).with_log();
            logs.push(dev.shared.clone());
            // Names are not identities: some devices share one.
            Rc::new(md_array::open_device(dev, *i / 2))
        })
        .collect();
    let ids = devices.iter().map(|d| d.id.clone()).collect();
    let array = MdArray::open(devices);
    for log in &logs {
        log.log.borrow_mut().clear();
    }
    Opened { array, ids, logs }
}

struct Opened {
    array: MdArray<SimDev>,
    ids: Vec<Rc<MdDeviceId>>,
    /// What was done with each device since the array was opened.
    logs: Vec<Rc<Shared>>,
}

fn differences(got: &Canon, want: &Canon) -> String {
    let mut out = String::new();
    let names: BTreeSet<_> = got.0.keys().chain(want.0.keys()).collect();
    for name in names {
        if got.0.get(name) != want.0.get(name) {
            out += &format!(
                "problem {name:?}: expected {:?}, reported {:?}; ",
                want.0.get(name),
                got.0.get(name)
            );
        }
    }
    out
}

// ---------------------------------------------------------------------------
// C06

enum Outcome {
    /// All blocks must be readable, and hold this.
    Must(Vec<Option<[u8; 512]>>),
    /// Blocks may be readable, and then hold this.
    May(Vec<Option<[u8; 512]>>),
    MustFail,
}

/// What reading an array of these members (in any order) has to give.
fn expected_contents(spec: &ArraySpec, members: &[&Member], images: &[&Image]) -> Outcome {
    let Some(wants) = members.iter().map(|m| m.want()).collect::<Option<Vec<Want>>>() else {
        // Devices without a superblock among the members: nobody says what
        // has to happen, but it must not be wrong.
        return Outcome::May(contents(spec, &known(members), images));
    };
    let format = |w: &Want| (algorithm_text(w.level, w.layout), w.size, w.chunk, w.raid_disks);
    if wants.iter().any(|w| format(w) != format(&wants[0])) {
        return Outcome::MustFail;
    }
    let (level, layout, chunk, n, size) = (
        wants[0].level,
        wants[0].layout,
        wants[0].chunk,
        wants[0].raid_disks,
        wants[0].size,
    );
    if (level, layout, chunk, n, size) != (spec.level, spec.layout, spec.chunk, spec.n, spec.size) {
        // All of them agree on something else: out of scope.
        return Outcome::May(Vec::new());
    }
    let merged = merge(&wants);
    let map = devices(&wants, &merged);
    let contents = contents(spec, &map, images);
    let complete = (0..n).all(|d| map.contains_key(&d));
    let conflict = merged.values().any(|roles| roles.len() > 1);
    if complete && !conflict {
        Outcome::Must(contents)
    } else {
        Outcome::May(contents)
    }
}

/// Definite roles claimed for each slot.
fn merge(wants: &[Want]) -> BTreeMap<usize, BTreeSet<u32>> {
    let mut merged: BTreeMap<usize, BTreeSet<u32>> = BTreeMap::new();
    for want in wants {
        for (slot, role) in want.roles.iter().enumerate() {
            if *role <= 0xfeff || *role == 0xfffd {
                merged.entry(slot).or_default().insert(*role);
            }
        }
    }
    merged
}

/// Which listed device has each number beyond doubt.
fn devices(wants: &[Want], merged: &BTreeMap<usize, BTreeSet<u32>>) -> BTreeMap<u32, usize> {
    let mut by_number: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for (i, want) in wants.iter().enumerate() {
        if let Some(roles) = merged.get(&want.slot) {
            let role = *roles.first().unwrap();
            if roles.len() == 1 && role <= 0xfeff {
                by_number.entry(role).or_default().push(i);
            }
        }
    }
    by_number
        .into_iter()
        .filter(|(_, devices)| devices.len() == 1)
        .map(|(number, devices)| (number, devices[0]))
        .collect()
}

/// The numbers of the devices that have superblocks.
fn known(members: &[&Member]) -> BTreeMap<u32, usize> {
    let with: Vec<usize> = (0..members.len()).filter(|i| members[*i].want().is_some()).collect();
    let wants: Vec<Want> = with.iter().map(|i| members[*i].want().unwrap()).collect();
    devices(&wants, &merge(&wants))
        .into_iter()
        .map(|(number, i)| (number, with[i]))
        .collect()
}

/// What each array block is with this assignment of devices; `None` if that
/// cannot be known.
fn contents(
    spec: &ArraySpec,
    map: &BTreeMap<u32, usize>,
    images: &[&Image],
) -> Vec<Option<[u8; 512]>> {
    (0..spec.array_sectors())
        .map(|sector| {
            let (s, index, at) = spec.locate(sector);
            let stripe = spec.stripe(s);
            let wanted = stripe.data[index];
            let mut parity = [0u8; 512];
            let mut block = None;
            let mut missing = 0;
            for d in stripe.data.iter().chain([&stripe.p]) {
                let Some(device) = map.get(&(*d as u32)) else {
                    missing += 1;
                    continue;
                };
                let image = images[*device];
                let mut bytes = [0; 512];
                image.read((spec.data_offset + at) * 512, &mut bytes);
                for (p, b) in parity.iter_mut().zip(&bytes) {
                    *p ^= b;
                }
                if *d == wanted {
                    block = Some(bytes);
                }
            }
            match (missing, block) {
                (0, Some(block)) if parity == [0; 512] => Some(block),
                (1, Some(block)) => Some(block),
                (1, None) => Some(parity),
                _ => None,
            }
        })
        .collect()
}

fn judge(
    ctx: &Ctx,
    spec: &ArraySpec,
    members: &[&Member],
    images: &[&Image],
    order: &[usize],
    what: &dyn Fn() -> String,
) -> Result<(), String> {
    let listed: Vec<&Member> = order.iter().map(|i| members[*i]).collect();
    let listed_images: Vec<Image> = order.iter().map(|i| images[*i].clone()).collect();
    let places: Vec<usize> = (0..order.len()).collect();
    let Opened { mut array, ids, logs } = open(&listed_images, &places);
    let got = canon(&array.diagnose(), &ids)
        .map_err(|e| format!("{}, listed as {order:?}: {e}", what()))?;
    let want = expected_diagnosis(&listed);
    ctx.step();
    if got != want {
        return Err(format!(
            "{}, listed as {order:?}: {}",
            what(),
            differences(&got, &want)
        ));
    }
    let refs: Vec<&Image> = listed_images.iter().collect();
    let outcome = expected_contents(spec, &listed, &refs);
    let count = array.block_count().map(|c| c.0).ok();
    if let Outcome::Must(_) = outcome {
        if count != Some(spec.array_sectors()) {
            return Err(format!(
                "{}, listed as {order:?}: the size is {count:?}, not {}",
                what(),
                spec.array_sectors()
            ));
        }
    }
    let mut results: Vec<bool> = Vec::new();
    for block in 0..spec.array_sectors() {
        ctx.step();
        let got = md_array::read_block(&mut array, block).ok();
        results.push(got.is_some());
        let (required, want) = match &outcome {
            Outcome::Must(c) => (true, c[block as usize]),
            Outcome::May(c) => (false, c.get(block as usize).copied().flatten()),
            Outcome::MustFail => (false, None),
        };
        match (got, want) {
            (Some(got), Some(want)) if got == want => {}
            (None, None) => {}
            (None, Some(_)) if !required => {}
            (None, Some(_)) => {
                return Err(format!(
                    "{}, listed as {order:?}: block {block} cannot be read",
                    what()
                ))
            }
            (Some(_), None) => {
                return Err(format!(
                    "{}, listed as {order:?}: block {block} was read, but what it is cannot be known",
                    what()
                ))
            }
            (Some(got), Some(_)) => {
                return Err(format!(
                    "{}, listed as {order:?}: block {block} has wrong data, {:x?}...",
                    what(),
                    &got[..8]
                ))
            }
        }
    }
    // A device that does not have a number beyond doubt is not used.
    let trusted = known(&listed);
    for (i, log) in logs.iter().enumerate() {
        let read = log
            .log
            .borrow()
            .iter()
            .find(|a| matches!(a, Access::Read { .. } | Access::ReadBlock(_)))
            .copied();
        if let (Some(read), false) = (read, trusted.values().any(|d| *d == i)) {
            return Err(format!(
                "{}, listed as {order:?}: device {} has no number beyond doubt, but was read ({read:?})",
                what(),
                order[i]
            ));
        }
    }
    // Where the reference leaves it open, the order must not matter either.
    let sorted: Vec<usize> = (0..order.len()).collect();
    if !matches!(outcome, Outcome::Must(_)) && order != sorted {
        let in_order: Vec<Image> = sorted.iter().map(|i| images[*i].clone()).collect();
        let mut array = open(&in_order, &sorted).array;
        let other = array.block_count().map(|c| c.0).ok();
        if other != count {
            return Err(format!(
                "{}: the size is {count:?} if listed as {order:?}, but {other:?} if listed in order",
                what()
            ));
        }
        for block in 0..spec.array_sectors() {
            ctx.step();
            let other = md_array::read_block(&mut array, block).is_ok();
            if other != results[block as usize] {
                return Err(format!(
                    "{}: whether block {block} can be read differs between listing as {order:?} ({}) and in order ({other})",
                    what(),
                    results[block as usize]
                ));
            }
        }
    }
    Ok(())
}

/// Members of an array with data, and their images.
fn array_of(spec: &ArraySpec) -> (Vec<Member>, Vec<Image>) {
    let images = md_array::cached(spec);
    (
        (0..spec.n).map(|i| Member::of(spec, i)).collect(),
        images.to_vec(),
    )
}

fn set_role(member: &mut Member, slot: usize, role: u32) {
    match member {
        Member::V1(sb, _) => {
            if sb.roles.len() <= slot {
                sb.roles.resize(slot + 1, 0xffff);
            }
            sb.roles[slot] = role as u16
        }
        Member::V0(sb) => {
            if sb.disks.len() <= slot {
                sb.disks.resize(slot + 1, (slot as u32, 0xffff, 0));
            }
            sb.nr_disks = sb.nr_disks.max(slot as u32 + 1);
            sb.disks[slot].1 = role
        }
        _ => {}
    }
}

fn set_slot(member: &mut Member, slot: u32) {
    match member {
        Member::V1(sb, _) => sb.dev_number = slot,
        Member::V0(sb) => sb.this_disk.0 = slot,
        _ => {}
    }
}

fn spec6(flavour: Flavour, layout: u32, n: u32) -> ArraySpec {
    md_array::spec(flavour, 6, layout, n, 2, 2 * u64::from(n), 24, 3)
}

fn c06(e: &mut Explorer) {
    let thorough = e.thorough;
    let layouts: &[u32] = if thorough { &[2, 0, 4, 10, 18] } else { &[2] };
    let flavours: &[Flavour] =
        if thorough { &FLAVOURS } else { &[Flavour::V1_2, Flavour::V0Little, Flavour::V0Big] };

    e.family("orders", |ctx| {
        // Every sequence of devices from a healthy array with a spare, each of
        // which may be listed twice.
        let flavour = *ctx.pick(&FLAVOURS);
        let spec = spec6(flavour, *ctx.pick(layouts), 4);
        let (mut members, mut images) = array_of(&spec);
        let mut spare = Member::of(&spec, 0);
        set_slot(&mut spare, 4);
        members.push(spare);
        images.push(images[0].clone());
        // The devices know about the spare or do not.
        let role = match ctx.choose(if flavour == Flavour::V0Little || flavour == Flavour::V0Big { 2 } else { 3 }) {
            0 => None,
            1 => Some(0xffff),
            _ => Some(0xfffe),
        };
        if let Some(role) = role {
            for member in &mut members {
                set_role(member, 4, role);
            }
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let max = if thorough { 6 } else { 5 };
        let len = ctx.range(1, max);
        let chosen: Vec<usize> = (0..len).map(|_| ctx.choose(5)).collect();
        if (0..5).any(|i| chosen.iter().filter(|c| **c == i).count() > 2) {
            return Ok(());
        }
        if len > 1 {
            ctx.nontrivial();
        }
        ctx.obs(&(&spec, role, &chosen));
        let what = || format!("{spec:?} with a spare of role {role:x?}, devices {chosen:?}");
        ctx.note(what);
        let members: Vec<&Member> = chosen.iter().map(|i| &members[*i]).collect();
        let images: Vec<&Image> = chosen.iter().map(|i| &images[*i]).collect();
        let order: Vec<usize> = (0..len).collect();
        judge(ctx, &spec, &members, &images, &order, &what)
    });

    let bound = if thorough { 3 } else { 2 };
    e.bounded("roles", bound, |ctx| {
        // Role tables that differ from the right one in some entries.
        let flavour = *ctx.pick(&[Flavour::V1_2, Flavour::V0Little, Flavour::V0Big]);
        let spec = spec6(flavour, 2, 4);
        let (mut members, mut images) = array_of(&spec);
        let mut what = Vec::new();
        // Entries that Linux would write for missing slots in version 0 are
        // not "faulty" and so on, but any may be found.
        let old = matches!(flavour, Flavour::V0Little | Flavour::V0Big);
        let values: &[u32] = if old {
            &[0, 1, 2, 3, 4, 0xffff, 0xfffe, 0xfffd]
        } else {
            &[0, 1, 2, 3, 4, 0xffff, 0xfffe, 0xfffd, 0xff55]
        };
        for member in 0..4usize {
            for slot in 0..4usize {
                let choice = ctx.deviate(values.len() + 1);
                if choice > 0 {
                    let role = values[choice - 1];
                    if role == slot as u32 {
                        return Ok(());
                    }
                    set_role(&mut members[member], slot, role);
                    what.push((member, slot, role));
                }
            }
        }
        let order = ctx.permutation(4);
        ctx.obs(&(&spec, &what, &order));
        ctx.nontrivial();
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let what = || format!("{spec:?} with roles (device, slot, role) {what:x?}");
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });

    e.family("renumbered", |ctx| {
        // All members agree on roles, which are not the numbers of slots;
        // some know less than others; optionally a fifth device claims a slot
        // or a role of another.
        let flavour = *ctx.pick(flavours);
        let spec = spec6(flavour, 2, 4);
        let (mut members, mut images) = array_of(&spec);
        let roles = ctx.permutation(4);
        // Which entries each member knows: all, its own, or all but its own.
        let knowledge: Vec<usize> = (0..4).map(|_| ctx.choose(3)).collect();
        let gone = *ctx.pick(&[0xffffu32, 0xfffe]);
        for (i, member) in members.iter_mut().enumerate() {
            for slot in 0..4 {
                let knows = match knowledge[i] {
                    0 => true,
                    1 => slot == i,
                    _ => slot != i,
                };
                set_role(member, slot, if knows { roles[slot] as u32 } else { gone });
            }
            // The device's data is that of its role.
        }
        let data: Vec<Image> = images.clone();
        for i in 0..4 {
            images[i] = data[roles[i]].clone();
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let order = *ctx.pick(&[[0usize, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]]);
        ctx.obs(&(&spec, &roles, &knowledge, gone, &order));
        ctx.nontrivial();
        let what = || {
            format!("{spec:?} with roles {roles:?}, known as {knowledge:?} (else {gone:#x})")
        };
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });

    e.family("tables", |ctx| {
        // Members that record role tables of different lengths.
        let flavour = if thorough { *ctx.pick(&[Flavour::V1_0, Flavour::V1_2]) } else { Flavour::V1_2 };
        let spec = spec6(flavour, 2, 4);
        let (mut members, mut images) = array_of(&spec);
        let lengths: Vec<usize> =
            (0..4).map(|_| *ctx.pick(if thorough { &[4, 0, 1, 2, 3, 5] } else { &[4usize, 1, 3, 6] })).collect();
        for (member, length) in members.iter_mut().zip(&lengths) {
            if let Member::V1(sb, _) = member {
                sb.max_dev = *length as u32;
                sb.roles = (0..*length).map(|i| if i < 4 { i as u16 } else { 0xffff }).collect();
            }
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let order = ctx.permutation(4);
        ctx.obs(&(&spec, &lengths, &order));
        ctx.nontrivial();
        let what = || format!("{spec:?} with role tables of lengths {lengths:?}");
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });

    e.family("slots", |ctx| {
        // Every assignment of slots to four or five devices.
        let flavour = *ctx.pick(flavours);
        let spec = spec6(flavour, 2, 4);
        let (mut members, mut images) = array_of(&spec);
        if ctx.flag() {
            // A device with other data.
            members.push(members[1].clone());
            let mut stale = images[1].clone();
            for sector in 0..spec.size {
                stale.xor((spec.data_offset + sector) * 512 + 7, 0x55);
            }
            images.push(stale);
        }
        let slots: Vec<u32> = members.iter().map(|_| ctx.choose(6) as u32).collect();
        if members.len() == 5 && !thorough && slots[0] != 0 {
            return Ok(());
        }
        for (member, slot) in members.iter_mut().zip(&slots) {
            set_slot(member, *slot);
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let n = members.len();
        let order: Vec<usize> = match ctx.choose(3) {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => (0..n).map(|i| (i * 2 + 1) % n).collect::<BTreeSet<_>>().into_iter().chain((0..n).filter(|i| !(0..n).any(|j| (j * 2 + 1) % n == *i))).collect(),
        };
        ctx.obs(&(&spec, &slots, &order));
        ctx.nontrivial();
        let what = || format!("{spec:?} with slots {slots:?}");
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });

    e.family("far slots", |ctx| {
        // Slots with large numbers, as devices that are replaced get them:
        // four members at four of them, or two at the same.
        let flavour = *ctx.pick(&[Flavour::V1_0, Flavour::V1_1, Flavour::V1_2]);
        let spec = spec6(flavour, 2, 4);
        let (mut members, mut images) = array_of(&spec);
        let far: &[usize] = if thorough {
            &[4, 15, 16, 26, 27, 31, 32, 63, 64, 126, 127, 128, 254, 255, 256, 257, 300, 381, 382, 383]
        } else {
            &[16, 27, 64, 127, 128, 255, 256, 383]
        };
        let a = *ctx.pick(far);
        let b = *ctx.pick(far);
        let first = ctx.choose(3);
        let gone = *ctx.pick(&[0xffffu32, 0xfffe]);
        // Devices at the ends of the list are the far ones.
        let slots = [first, a, if first == 0 { 1 } else { 0 }, b];
        let order = *ctx.pick(&[[0usize, 1, 2, 3], [3, 1, 2, 0], [1, 3, 0, 2], [2, 0, 3, 1]]);
        for member in &mut members {
            if let Member::V1(sb, _) = member {
                sb.roles = vec![gone as u16; 384];
                sb.max_dev = 384;
                for (role, slot) in slots.iter().enumerate() {
                    sb.roles[*slot] = role as u16;
                }
            }
        }
        for (member, slot) in members.iter_mut().zip(slots) {
            set_slot(member, slot as u32);
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        ctx.obs(&(&spec, slots, gone, &order));
        ctx.nontrivial();
        let what = || format!("{spec:?} with slots {slots:?}");
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });

    e.family("wide", |ctx| {
        // Arrays of many members, all in agreement or with one conflict.
        let widths: &[u32] =
            if thorough { &[27, 33, 65, 66, 129, 130, 200, 257, 258, 384] } else { &[27, 66, 130, 258] };
        let n = *ctx.pick(widths);
        let flavour = match n {
            27 => *ctx.pick(&FLAVOURS),
            _ => Flavour::V1_2,
        };
        let size = if matches!(flavour, Flavour::V0Little | Flavour::V0Big) { 2 } else { 1 };
        let spec = md_array::spec(flavour, 6, 2, n, size as u32, size, 48, 3);
        let (mut members, mut images) = array_of(&spec);
        let last = n as usize - 1;
        let (a, b) = *ctx.pick(&[(0, last), (last, 0), (last / 2, last), (last, last - 1), (last - 2, 1)]);
        let kind = ctx.choose(5);
        match kind {
            0 => {}
            1 => {
                // All agree that two have changed places.
                for member in &mut members {
                    set_role(member, a, b as u32);
                    set_role(member, b, a as u32);
                }
                images.swap(a, b);
            }
            2 => set_role(&mut members[a], b, a as u32),
            3 => set_slot(&mut members[a], b as u32),
            _ => set_role(&mut members[a], b, 0xffff),
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let order: Vec<usize> = if ctx.flag() {
            (0..=last).rev().collect()
        } else {
            (0..=last).map(|i| (i + last / 2) % (last + 1)).collect()
        };
        ctx.obs(&(&spec, a, b, kind, &order));
        ctx.nontrivial();
        let what = || format!("{spec:?}, kind {kind} of {a} and {b}");
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });

    e.family("formats", |ctx| {
        // One or two of the members disagree about the array.
        let flavour = *ctx.pick(&FLAVOURS);
        let spec = spec6(flavour, *ctx.pick(&[2u32, 0, 18]), 4);
        let (mut members, mut images) = array_of(&spec);
        let who = 1 + ctx.choose(14);
        let attribute = ctx.choose(5);
        let value = ctx.choose(3);
        for (i, member) in members.iter_mut().enumerate() {
            if who >> i & 1 == 1 {
                set_format(member, attribute, value);
            }
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let order = ctx.permutation(4);
        ctx.obs(&(&spec, who, attribute, value, &order));
        ctx.nontrivial();
        let what = || {
            format!(
                "{spec:?} where devices {who:#b} have another {} ({value})",
                ["level", "layout", "chunk size", "size", "device count"][attribute]
            )
        };
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });

    e.family("others", |ctx| {
        // Devices without a superblock, of another version, or under reshape
        // among the members.
        let flavour = *ctx.pick(&FLAVOURS);
        let spec = spec6(flavour, 2, 4);
        let (mut members, mut images) = array_of(&spec);
        let which = ctx.choose(4);
        let kind = ctx.choose(5);
        match kind {
            0 => {
                members.push(Member::Blank);
                images.push(Image::new(images[0].size));
            }
            1 => {
                members.push(Member::Small);
                images.push(Image::new(8192));
            }
            2 => {
                members[which] = Member::Blank;
                images[which] = Image::new(images[which].size);
            }
            3 => {
                members[which] = Member::Small;
            }
            _ => set_reshape(&mut members[which], 7),
        }
        if kind == 4 && ctx.flag() {
            set_reshape(&mut members[(which + 1) % 4], 8);
        }
        for (member, image) in members.iter().zip(&mut images) {
            member.put(image);
        }
        let order = ctx.permutation(members.len());
        ctx.obs(&(&spec, which, kind, &order));
        ctx.nontrivial();
        let what = || format!("{spec:?}, other device of kind {kind} at {which}");
        ctx.note(what);
        judge(
            ctx,
            &spec,
            &members.iter().collect::<Vec<_>>(),
            &images.iter().collect::<Vec<_>>(),
            &order,
            &what,
        )
    });
}

fn set_format(member: &mut Member, attribute: usize, value: usize) {
    macro_rules! set {
        ($sb:expr, $unit:expr) => {
            match attribute {
                0 => $sb.level = [5, 4, 1][value],
                1 => $sb.layout = [$sb.layout ^ 1, 16, 77][value],
                2 => $sb.chunk = [1, 4, 6][value] * $unit,
                3 => $sb.size = [$sb.size - 2, $sb.size * 2, 2][value],
                _ => $sb.raid_disks = [3, 5, 6][value],
            }
        };
    }
    match member {
        Member::V1(sb, _) => set!(sb, 1),
        Member::V0(sb) => set!(sb, 512),
        _ => {}
    }
}

fn set_reshape(member: &mut Member, position: u64) {
    match member {
        Member::V1(sb, _) => {
            sb.features |= 4;
            sb.new_level = 6;
            sb.new_layout = 2;
            sb.new_chunk = 4;
            sb.delta_disks = 0;
            sb.reshape_position = position;
        }
        Member::V0(sb) => {
            sb.minor = 91;
            sb.new_level = 6;
            sb.new_layout = 2;
            sb.new_chunk = 2048;
            sb.delta_disks = 0;
            sb.reshape_position = position;
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------
// C07

const ATTRIBUTES: [(&str, u32); 17] = [
    ("uuid 0", 32),
    ("uuid 1", 32),
    ("uuid 2", 32),
    ("uuid 3", 32),
    ("name", 32),
    ("level", 32),
    ("layout", 32),
    ("size", 32),
    ("chunk", 23),
    ("device count", 32),
    ("events", 64),
    ("slot", 32),
    ("role", 15),
    ("reshape position", 64),
    ("new layout", 32),
    ("new chunk", 23),
    ("delta", 32),
];

/// Makes an attribute different from what it is, by `mask`.
fn change(member: &mut Member, attribute: usize, mask: u64) {
    let m = mask as u32;
    match member {
        Member::V1(sb, _) => match attribute {
            0..=3 => {
                for (i, b) in m.to_le_bytes().iter().enumerate() {
                    sb.uuid[4 * attribute + i] ^= b;
                }
            }
            4 => {
                for (i, b) in m.to_le_bytes().iter().enumerate() {
                    sb.name[2 + i] ^= b;
                }
            }
            5 => sb.level ^= m,
            6 => sb.layout ^= m,
            7 => sb.size ^= mask,
            8 => sb.chunk ^= m,
            9 => sb.raid_disks ^= m,
            10 => sb.events ^= mask,
            11 => sb.dev_number ^= m,
            12 => sb.roles[1] ^= m as u16,
            _ => {
                sb.features |= 4;
                match attribute {
                    13 => sb.reshape_position ^= mask,
                    14 => sb.new_layout ^= m,
                    15 => sb.new_chunk ^= m,
                    _ => sb.delta_disks ^= m,
                }
            }
        },
        Member::V0(sb) => match attribute {
            0..=3 => sb.uuid[attribute] ^= m,
            4 => {}
            5 => sb.level ^= m,
            6 => sb.layout ^= m,
            7 => sb.size ^= m,
            8 => sb.chunk ^= m << 9,
            9 => sb.raid_disks ^= m,
            10 => sb.events ^= mask,
            11 => sb.this_disk.0 ^= m,
            12 => sb.disks[1].1 ^= m,
            _ => {
                sb.minor = 91;
                match attribute {
                    13 => sb.reshape_position ^= mask,
                    14 => sb.new_layout ^= m,
                    15 => sb.new_chunk ^= m << 9,
                    _ => sb.delta_disks ^= m,
                }
            }
        },
        _ => {}
    }
}

/// Gives an attribute this value, whatever it is.
fn assign(member: &mut Member, attribute: usize, value: u64) {
    let v = value as u32;
    match member {
        Member::V1(sb, _) => match attribute {
            0..=3 => {
                for word in sb.uuid.chunks_mut(4) {
                    word.copy_from_slice(&v.to_le_bytes());
                }
            }
            4 => {
                sb.name = [0; 32];
                if value > 0 {
                    let text = format!("{value:x}");
                    sb.name[..text.len()].copy_from_slice(text.as_bytes());
                }
            }
            5 => sb.level = v,
            6 => sb.layout = v,
            7 => sb.size = value,
            8 => sb.chunk = v,
            9 => sb.raid_disks = v,
            10 => sb.events = value,
            11 => sb.dev_number = v,
            12 => sb.roles[1] = v as u16,
            13 => sb.reshape_position = value,
            14 => sb.new_layout = v,
            15 => sb.new_chunk = v,
            _ => sb.delta_disks = v,
        },
        Member::V0(sb) => match attribute {
            0..=3 => sb.uuid = [v; 4],
            4 => {}
            5 => sb.level = v,
            6 => sb.layout = v,
            7 => sb.size = v,
            8 => sb.chunk = v & !511,
            9 => sb.raid_disks = v,
            10 => sb.events = value,
            11 => sb.this_disk.0 = v,
            12 => sb.disks[1].1 = v & 0xffff,
            13 => sb.reshape_position = value,
            14 => sb.new_layout = v,
            15 => sb.new_chunk = v & !511,
            _ => sb.delta_disks = v,
        },
        _ => {}
    }
}

/// Whether the change keeps the superblock one that is recognised and whose
/// meaning is not disputed.
fn sensible(member: &Member) -> bool {
    let role_ok = |r: u32| r <= 0xfeff || r >= 0xfffd && r <= 0xffff;
    match member {
        Member::V1(sb, _) => sb.roles.iter().all(|r| role_ok((*r).into())),
        Member::V0(sb) => sb.disks.iter().all(|d| role_ok(d.1)),
        _ => true,
    }
}

fn blank(flavour: Flavour) -> Image {
    let _ = flavour;
    Image::new(1 << 17)
}

fn check_diagnosis(ctx: &Ctx, members: &[Member], what: &str) -> Result<(), String> {
    let images: Vec<Image> = members
        .iter()
        .map(|m| {
            let mut image = blank(m.flavour());
            m.put(&mut image);
            image
        })
        .collect();
    let order: Vec<usize> = (0..members.len()).collect();
    let Opened { array, ids, .. } = open(&images, &order);
    let got = canon(&array.diagnose(), &ids).map_err(|e| format!("{what}: {e}"))?;
    let want = expected_diagnosis(&members.iter().collect::<Vec<_>>());
    ctx.obs(&want);
    ctx.step();
    if got != want {
        return Err(format!("{what}: {}", differences(&got, &want)));
    }
    Ok(())
}

fn c07(e: &mut Explorer) {
    let thorough = e.thorough;
    let spec = |flavour: Flavour| {
        let mut spec = md_array::spec(flavour, 6, 2, 4, 128, 128, 24, 1);
        spec.device_size = 1 << 17;
        spec
    };

    e.family("single", |ctx| {
        let flavour = *ctx.pick(&FLAVOURS);
        let attribute = ctx.choose(ATTRIBUTES.len());
        let n = ctx.range(1, if thorough { 6 } else { 5 });
        let values: Vec<usize> = (0..n).map(|_| ctx.choose(4)).collect();
        let mut members: Vec<Member> =
            (0..n).map(|i| Member::of(&spec(flavour), i as u32)).collect();
        for (member, value) in members.iter_mut().zip(&values) {
            let mask = [0u64, 1, 4, 5][*value];
            change(member, attribute, mask);
        }
        let what = format!("{flavour:?}: {} of {values:?}", ATTRIBUTES[attribute].0);
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, attribute, &values));
        if values.iter().any(|v| *v != values[0]) {
            ctx.nontrivial();
        }
        if !members.iter().all(sensible) {
            return Ok(());
        }
        check_diagnosis(ctx, &members, &what)
    });

    e.family("slots", |ctx| {
        // Every way in which devices can claim the slots of a table.
        let flavour = *ctx.pick(&FLAVOURS);
        let n = ctx.range(1, if thorough { 6 } else { 5 });
        let slots: Vec<u32> = (0..n).map(|_| ctx.choose(n + 1) as u32).collect();
        let mut members: Vec<Member> =
            (0..n).map(|i| Member::of(&spec(flavour), i as u32)).collect();
        for (member, slot) in members.iter_mut().zip(&slots) {
            set_slot(member, *slot);
        }
        let what = format!("{flavour:?}: devices claim the slots {slots:?}");
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, &slots));
        ctx.nontrivial();
        check_diagnosis(ctx, &members, &what)
    });

    e.family("groups", |ctx| {
        // Any number of devices that agree among themselves only.
        let flavour = *ctx.pick(&FLAVOURS);
        let attribute = ctx.choose(ATTRIBUTES.len());
        let n = ctx.range(2, if thorough { 27 } else { 16 });
        let groups = ctx.range(1, n);
        let interleaved = ctx.flag();
        let mut members: Vec<Member> =
            (0..n).map(|i| Member::of(&spec(flavour), i as u32)).collect();
        for (i, member) in members.iter_mut().enumerate() {
            let group = if interleaved { i % groups } else { i * groups / n } as u64;
            if attribute == 11 {
                set_slot(member, group as u32);
            } else {
                change(member, attribute, group);
            }
        }
        if !members.iter().all(sensible) {
            return Ok(());
        }
        let what = format!(
            "{flavour:?}: {n} devices, {} of {groups} groups (interleaved: {interleaved})",
            ATTRIBUTES[attribute].0
        );
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, attribute, n, groups, interleaved));
        ctx.nontrivial();
        check_diagnosis(ctx, &members, &what)
    });

    e.family("pairs", |ctx| {
        let flavour = *ctx.pick(&FLAVOURS);
        let a = ctx.choose(ATTRIBUTES.len());
        let b = ctx.choose(ATTRIBUTES.len());
        if b >= a {
            return Ok(());
        }
        let (va, vb) = (ctx.choose(8), ctx.choose(8));
        let mut members: Vec<Member> =
            (0..3).map(|i| Member::of(&spec(flavour), i)).collect();
        for (i, member) in members.iter_mut().enumerate() {
            change(member, a, (va >> i & 1) as u64);
            change(member, b, (vb >> i & 1) as u64);
        }
        let what = format!(
            "{flavour:?}: {} differs in {va:#b}, {} in {vb:#b}",
            ATTRIBUTES[a].0, ATTRIBUTES[b].0
        );
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, a, b, va, vb));
        if va + vb > 0 {
            ctx.nontrivial();
        }
        check_diagnosis(ctx, &members, &what)
    });

    if thorough {
        e.family("triples", |ctx| {
            let flavour = *ctx.pick(&FLAVOURS);
            let a = ctx.choose(ATTRIBUTES.len());
            let b = ctx.choose(ATTRIBUTES.len());
            let c = ctx.choose(ATTRIBUTES.len());
            if b >= a || c >= b {
                return Ok(());
            }
            let v = [ctx.choose(8), ctx.choose(8), ctx.choose(8)];
            let mut members: Vec<Member> =
                (0..3).map(|i| Member::of(&spec(flavour), i)).collect();
            for (i, member) in members.iter_mut().enumerate() {
                for (attribute, v) in [a, b, c].iter().zip(v) {
                    change(member, *attribute, (v >> i & 1) as u64);
                }
            }
            let what = format!("{flavour:?}: attributes {:?} differ in {v:?}", [a, b, c]);
            ctx.note(|| what.clone());
            ctx.obs(&(flavour, a, b, c, v));
            ctx.nontrivial();
            check_diagnosis(ctx, &members, &what)
        });
    }

    e.family("bits", |ctx| {
        // A difference in any one bit is noticed, whoever has it.
        let flavour = *ctx.pick(&FLAVOURS);
        let attribute = ctx.choose(ATTRIBUTES.len());
        let mut bits = ATTRIBUTES[attribute].1;
        let v1 = !matches!(flavour, Flavour::V0Little | Flavour::V0Big);
        if v1 && matches!(attribute, 7) {
            bits = 64;
        }
        if v1 && matches!(attribute, 8 | 15) {
            bits = 32;
        }
        let bit = ctx.choose(bits as usize);
        let who = ctx.choose(3);
        let mut members: Vec<Member> =
            (0..3).map(|i| Member::of(&spec(flavour), i)).collect();
        // All are under reshape, or none.
        if attribute >= 13 {
            for member in &mut members {
                change(member, 13, 0);
            }
        }
        change(&mut members[who], attribute, 1 << bit);
        let what = format!("{flavour:?}: bit {bit} of {} differs in device {who}", ATTRIBUTES[attribute].0);
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, attribute, bit, who));
        ctx.nontrivial();
        if !members.iter().all(sensible) {
            return Ok(());
        }
        check_diagnosis(ctx, &members, &what)
    });

    e.family("special values", |ctx| {
        // Values that code might treat specially differ like any other, and do
        // not if several devices have them.
        const SPECIAL: [u64; 22] = [
            0,
            1,
            2,
            26,
            27,
            28,
            127,
            128,
            255,
            256,
            383,
            384,
            1920,
            0xfeff,
            0xff00,
            0xfffe,
            0xffff,
            0x10000,
            i32::MAX as u64,
            u32::MAX as u64,
            i64::MAX as u64,
            u64::MAX,
        ];
        let flavour = *ctx.pick(&FLAVOURS);
        let attribute = ctx.choose(ATTRIBUTES.len());
        let n = 3;
        let values: Vec<Option<u64>> = match ctx.choose(3) {
            // One has it; or all but one; or two have different ones.
            0 => {
                let who = ctx.choose(n);
                let value = *ctx.pick(&SPECIAL);
                (0..n).map(|i| (i == who).then_some(value)).collect()
            }
            1 => {
                let who = ctx.choose(n + 1);
                let value = *ctx.pick(&SPECIAL);
                (0..n).map(|i| (i != who).then_some(value)).collect()
            }
            _ => {
                let (a, b) = (*ctx.pick(&SPECIAL), *ctx.pick(&SPECIAL));
                vec![Some(a), Some(b), if ctx.flag() { Some(b) } else { None }]
            }
        };
        let mut members: Vec<Member> =
            (0..n).map(|i| Member::of(&spec(flavour), i as u32)).collect();
        for (member, value) in members.iter_mut().zip(&values) {
            // All are under reshape, or none.
            if attribute >= 13 {
                change(member, 13, 0);
            }
            if let Some(value) = value {
                assign(member, attribute, *value);
            }
        }
        let what = format!("{flavour:?}: {} is {values:?}", ATTRIBUTES[attribute].0);
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, attribute, &values));
        ctx.nontrivial();
        if !members.iter().all(sensible) {
            return Ok(());
        }
        check_diagnosis(ctx, &members, &what)
    });

    e.family("table-lengths", |ctx| {
        // Tables of different lengths, empty ones among them.
        let flavour = *ctx.pick(&FLAVOURS);
        let v1 = !matches!(flavour, Flavour::V0Little | Flavour::V0Big);
        let lengths: &[u32] =
            if v1 { &[0, 1, 4, 5, 127, 128, 129, 384, 1919, 1920] } else { &[0, 1, 3, 4, 5, 26, 27] };
        let chosen: Vec<u32> = (0..3).map(|_| *ctx.pick(lengths)).collect();
        let mut members: Vec<Member> =
            (0..3).map(|i| Member::of(&spec(flavour), i)).collect();
        for (member, len) in members.iter_mut().zip(&chosen) {
            match member {
                Member::V1(sb, _) => {
                    sb.max_dev = *len;
                    sb.roles.truncate(*len as usize);
                }
                Member::V0(sb) => {
                    sb.nr_disks = *len;
                    while sb.disks.len() < *len as usize {
                        sb.disks.push((sb.disks.len() as u32, 0xffff, 0));
                    }
                }
                _ => {}
            }
        }
        let what = format!("{flavour:?}: tables of {chosen:?} slots");
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, &chosen));
        ctx.nontrivial();
        check_diagnosis(ctx, &members, &what)
    });

    e.family("role-tables", |ctx| {
        // Tables that differ in any slot or in their length.
        let flavour = *ctx.pick(&FLAVOURS);
        let v1 = !matches!(flavour, Flavour::V0Little | Flavour::V0Big);
        let slot = ctx.choose(if v1 { 128 } else { 27 });
        let role = *ctx.pick(&[0u32, 9, 0xfffe, 0xfffd, 0xffff]);
        let who = ctx.choose(2);
        let mut members: Vec<Member> =
            (0..2).map(|i| Member::of(&spec(flavour), i)).collect();
        set_role(&mut members[who], slot, role);
        let what = format!("{flavour:?}: device {who} has role {role:#x} in slot {slot}");
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, slot, role, who));
        ctx.nontrivial();
        check_diagnosis(ctx, &members, &what)
    });

    e.family("kinds", |ctx| {
        let n = ctx.range(0, if thorough { 5 } else { 4 });
        let kinds: Vec<usize> = (0..n).map(|_| ctx.choose(8)).collect();
        let members: Vec<Member> = kinds
            .iter()
            .enumerate()
            .map(|(i, kind)| match kind {
                0 => Member::Blank,
                1 => Member::Small,
                k => {
                    let flavour = [
                        Flavour::V1_0,
                        Flavour::V1_1,
                        Flavour::V1_2,
                        Flavour::V0Little,
                        Flavour::V0Big,
                        Flavour::V1_2,
                    ][*k - 2];
                    let mut member = Member::of(&spec(flavour), i as u32);
                    if *k == 7 {
                        change(&mut member, 4, 3);
                        change(&mut member, 10, 9);
                    }
                    member
                }
            })
            .collect();
        let what = format!("devices of kinds {kinds:?}");
        ctx.note(|| what.clone());
        ctx.obs(&kinds);
        if n > 0 {
            ctx.nontrivial();
        }
        check_diagnosis(ctx, &members, &what)
    });

    e.family("many", |ctx| {
        // Large arrays in which one or two devices differ.
        let flavour = *ctx.pick(&[Flavour::V1_2, Flavour::V0Little]);
        let n = *ctx.pick(&[6usize, 12, 24]);
        let attribute = ctx.choose(ATTRIBUTES.len());
        let a = ctx.choose(n);
        let b = ctx.choose(n);
        let same = ctx.flag();
        if b > a || (!thorough && n == 24 && a - b > 2) {
            return Ok(());
        }
        let mut members: Vec<Member> =
            (0..n).map(|i| Member::of(&spec(flavour), i as u32)).collect();
        change(&mut members[a], attribute, 64);
        if a != b {
            change(&mut members[b], attribute, if same { 64 } else { 32 });
        }
        let what = format!(
            "{flavour:?}: {n} devices, {} differs in {a} and {b} (same: {same})",
            ATTRIBUTES[attribute].0
        );
        ctx.note(|| what.clone());
        ctx.obs(&(flavour, n, attribute, a, b, same));
        ctx.nontrivial();
        check_diagnosis(ctx, &members, &what)
    });

    e.family("names", |ctx| {
        // Names of every pair of lengths.
        let (a, b) = (ctx.choose(33), ctx.choose(33));
        let mut members: Vec<Member> =
            (0..2).map(|i| Member::of(&spec(Flavour::V1_2), i)).collect();
        for (member, len) in members.iter_mut().zip([a, b]) {
            if let Member::V1(sb, _) = member {
                sb.name = [0; 32];
                sb.name[..len].fill(b'n');
            }
        }
        let what = format!("names of {a} and {b} bytes");
        ctx.note(|| what.clone());
        ctx.obs(&(a, b));
        if a != b {
            ctx.nontrivial();
        }
        check_diagnosis(ctx, &members, &what)
    });
}
