//! C24: damage in one place does not affect what does not need that place.

use crate::explore::{Ctx, Explorer};
use crate::ext4_dir::{entries_of, next_entry, open_dir, Entry, Next};
use crate::ext4_fs::open_file;
use crate::ext4_io::{array_members, array_spec, show, Got, Handle, Item};
use crate::ext4ref::{mode, Csum, Fs, Geo, RawInode, Record, Run, Tree};
use crate::md_array::{open_device, read_block, spec};
use crate::mdref::{superblock_offset, ArraySpec, Flavour, RAID6_LAYOUTS};
use crate::simdev::{failure_errno, Failure, Image, SimDev};
use crate::{Check, Level};
use std::io::{Read, Seek};
use sut::verif::ext4::Ext4Fs;
use sut::verif::md::{MdArray, MdDevice, MdDeviceSuperblock};
use sut::verif::{BlockDevice, BlockDeviceReader, BlockSize, InMemoryBlockDevice};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C24",
        level: Level::Faults,
        rule: "one execution damages some places of a device (or of a member of an array), and opens, \
               lists and reads everything; whatever needs none of them must come out exactly as \
               without damage, in full; non-trivial: always",
        assumptions: &[
            "to use a filesystem its superblock and the blocks of its group descriptors are needed; \
             to use a file, the block of its inode; to read on, the extent nodes and blocks so far",
        ],
        note: "Every sector unreadable or overwritten, every byte changed, everything damaged but what \
               is needed for each prefix of each file; on plain devices and on RAID 6.",
        run,
    }]
}

/// A range of bytes: where it starts and how many.
type Region = (u64, u64);

fn overlap(a: Region, b: Region) -> bool {
    a.0 < b.0 + b.1 && b.0 < a.0 + a.1
}

struct Step {
    item: Item,
    /// Nodes and directory blocks that say what comes here.
    nodes: Vec<u64>,
    /// The block that the data is in, if any is needed.
    data: Option<u64>,
}

struct Thing {
    ino: u32,
    dir: bool,
    steps: Vec<Step>,
}

struct Local {
    fs: Fs,
    things: Vec<Thing>,
}

/// For every logical block of a tree: the nodes on the way, and the block.
fn paths(tree: &Tree, above: &[u64], out: &mut Vec<(Vec<u64>, u64, bool)>) {
    match tree {
        Tree::Leaf(runs) => {
            for run in runs {
                for i in 0..u64::from(run.len) {
                    out.push((above.to_vec(), run.start + i, run.unwritten));
                }
            }
        }
        Tree::Index(children) => {
            for (_, block, child) in children {
                let mut above = above.to_vec();
                above.push(*block);
                paths(child, &above, out);
            }
        }
    }
}

impl Local {
    fn bs(&self) -> u64 {
        self.fs.bs() as u64
    }

    fn block(&self, block: u64) -> Region {
        (block * self.bs(), self.bs())
    }

    fn superblock(&self) -> Region {
        (1024, 1024)
    }

    fn descriptors(&self) -> Region {
        let size = u64::from(self.fs.geo.groups()) * u64::from(self.fs.geo.desc_size);
        (self.fs.descriptor_at(0), size)
    }

    fn descriptor(&self, ino: u32) -> Region {
        let group = (ino - 1) / self.fs.geo.inodes_per_group;
        (self.fs.descriptor_at(group), self.fs.geo.desc_size.into())
    }

    fn inode(&self, ino: u32) -> Region {
        (self.fs.inode_at(ino), self.fs.geo.inode_size.into())
    }

    /// All that is needed for the first `count` steps of a thing.
    fn needs(&self, thing: &Thing, count: usize) -> Vec<Region> {
        let mut all = vec![self.superblock(), self.descriptor(thing.ino), self.inode(thing.ino)];
        for step in &thing.steps[..count] {
            all.extend(step.nodes.iter().chain(&step.data).map(|block| self.block(*block)));
        }
        all
    }

    /// The whole blocks a region is in.
    fn rounded(&self, region: Region) -> Region {
        let bs = self.bs();
        let from = region.0 / bs * bs;
        (from, (region.0 + region.1).div_ceil(bs) * bs - from)
    }

    fn add(&mut self, ino: u32, tree: &Tree, short: usize) {
        let mut at = Vec::new();
        paths(tree, &[], &mut at);
        let bs = self.fs.bs();
        let mut steps = Vec::new();
        for (i, (nodes, block, unwritten)) in at.iter().enumerate() {
            self.fs.write_pattern(*block);
            let mut bytes = if *unwritten {
                vec![0; bs]
            } else {
                self.fs.image.bytes(block * bs as u64, bs)
            };
            if i + 1 == at.len() {
                bytes.truncate(bs - short);
            }
            steps.push(Step {
                item: Item::Data(bytes),
                nodes: nodes.clone(),
                data: (!unwritten).then_some(*block),
            });
        }
        let size = (at.len() * bs).saturating_sub(short);
        self.fs.add_file(ino, mode::REG | 0o644, size as u64, tree);
        self.things.push(Thing { ino, dir: false, steps });
    }

    fn add_dir(&mut self, ino: u32, tree: &Tree, contents: &[Vec<Record>]) {
        let mut at = Vec::new();
        paths(tree, &[], &mut at);
        let bs = self.fs.bs() as u64;
        let mut inode = RawInode::new(self.fs.geo.inode_size, mode::DIR | 0o755, at.len() as u64 * bs);
        let root = self.fs.write_tree(ino, inode.generation(), tree);
        inode.set_root(&root);
        self.fs.write_inode(ino, &inode);
        let mut steps = Vec::new();
        for ((nodes, block, _), records) in at.iter().zip(contents) {
            let bytes = self.fs.dir_block(ino, inode.generation(), records);
            self.fs.write_block(*block, &bytes);
            let mut nodes = nodes.clone();
            nodes.push(*block);
            for entry in entries_of(std::slice::from_ref(records)) {
                steps.push(Step {
                    item: Item::Entry(entry),
                    nodes: nodes.clone(),
                    data: None,
                });
            }
        }
        self.things.push(Thing { ino, dir: true, steps });
    }
}

fn local(log_bs: u32, csum: Csum) -> Local {
    let geo = Geo {
        blocks: 96,
        blocks_per_group: 32,
        inodes_per_group: 16,
        ..Geo::small(log_bs, csum)
    };
    let mut l = Local {
        fs: Fs::new(geo),
        things: Vec::new(),
    };
    let run = |logical: u32, len: u16, start: u64, unwritten: bool| Run {
        logical,
        len,
        start,
        unwritten,
    };
    let records = |n: usize| -> Vec<Vec<Record>> {
        (0..n)
            .map(|b| {
                vec![
                    Record::new(12, format!("one-{b}").as_bytes(), 1),
                    Record::new(0, b"gone", 1),
                    Record::new(13, format!("two-{b}").as_bytes(), 1),
                ]
            })
            .collect()
    };
    // With gaps, so that what is next to something is not needed.
    let at = l.fs.alloc(8);
    let tree = Tree::Leaf(vec![run(0, 1, at, false), run(1, 2, at + 2, false), run(3, 1, at + 6, false)]);
    l.add_dir(2, &tree, &records(4));
    let at = l.fs.alloc(8);
    let tree = Tree::Leaf(vec![run(0, 2, at, false), run(2, 2, at + 3, true), run(4, 1, at + 6, false)]);
    l.add(12, &tree, 100);
    let at = l.fs.alloc(16);
    let tree = Tree::Index(vec![
        (
            0,
            at,
            Tree::Index(vec![
                (0, at + 1, Tree::Leaf(vec![run(0, 1, at + 8, false), run(1, 1, at + 10, true)])),
                (2, at + 3, Tree::Leaf(vec![run(2, 2, at + 12, false)])),
            ]),
        ),
        (
            4,
            at + 4,
            Tree::Index(vec![(4, at + 6, Tree::Leaf(vec![run(4, 1, at + 11, false)]))]),
        ),
    ]);
    l.add(13, &tree, 0);
    // In other groups.
    let at = l.fs.alloc(8);
    let tree = Tree::Index(vec![
        (0, at, Tree::Leaf(vec![run(0, 1, at + 2, false)])),
        (1, at + 1, Tree::Leaf(vec![run(1, 2, at + 4, false)])),
    ]);
    l.add_dir(20, &tree, &records(3));
    let bs = l.fs.bs();
    let at = l.fs.alloc(2);
    l.add(40, &Tree::Leaf(vec![run(0, 1, at, false)]), bs - 10);
    l.add(17, &Tree::Leaf(vec![]), 0);
    // Longer runs.
    let at = l.fs.alloc(16);
    l.add(18, &Tree::Leaf(vec![run(0, 11, at, false), run(11, 1, at + 12, false)]), 1);
    l
}

/// What has happened to the device.
struct Damage<'a> {
    touched: &'a dyn Fn(Region) -> bool,
    /// The damaged contents, if they are changed and not unreadable.
    garbled: Option<&'a Image>,
}

fn next<D: BlockDevice + Read + Seek>(handle: &mut Handle<D>, bs: usize) -> Got {
    match handle {
        Handle::Dir(dir) => match next_entry(dir) {
            Next::Entry(Entry { name, inode, file_type }) => Got::Item(Item::Entry(Entry { name, inode, file_type })),
            Next::End => Got::End,
            Next::Error(e) => Got::Error(e),
        },
        file => file.next(bs),
    }
}

/// Opens and reads everything. What the damage has not touched must be right;
/// of the rest, what could be detected must be an error or right.
fn judge<D: BlockDevice + Read + Seek>(ctx: &Ctx, l: &Local, device: D, damage: &Damage) -> Result<(), String> {
    ctx.nontrivial();
    let touched = |region: Region| match damage.garbled {
        Some(_) => (damage.touched)(region),
        None => (damage.touched)(l.rounded(region)),
    };
    let garbled = damage.garbled.is_some();
    let all_lost = touched(l.superblock()) || !garbled && touched(l.descriptors());
    let mut fs = match Ext4Fs::open(device) {
        Ok(fs) => fs,
        Err(_) if all_lost => return Ok(()),
        Err(e) => return Err(format!("the filesystem does not open: {e}")),
    };
    ctx.step();
    if all_lost && garbled {
        return Ok(());
    }
    for thing in &l.things {
        let ino = thing.ino;
        let mut hit = touched(l.inode(ino)) || touched(l.descriptor(ino));
        ctx.step();
        let opened = if thing.dir {
            open_dir(&mut fs, ino).map(Handle::Dir)
        } else {
            open_file(&mut fs, ino).map(Handle::File)
        };
        let mut handle = match opened {
            Ok(handle) => handle,
            Err(_) if hit => continue,
            Err(e) => return Err(format!("inode {ino} does not open: {e}")),
        };
        if hit && garbled {
            continue;
        }
        let mut at = 0;
        loop {
            let step = thing.steps.get(at);
            if let Some(step) = step {
                hit |= step.nodes.iter().any(|block| touched(l.block(*block)))
                    || !garbled && step.data.is_some_and(|block| touched(l.block(block)));
            }
            ctx.step();
            let want = match (step, damage.garbled) {
                (Some(Step { item: Item::Data(bytes), data: Some(block), .. }), Some(image)) => {
                    Some(Item::Data(image.bytes(block * l.bs(), bytes.len())))
                }
                (step, _) => step.map(|step| step.item.clone()),
            };
            match (next(&mut handle, l.fs.bs()), want) {
                _ if hit && garbled => break,
                (Got::Item(got), Some(want)) if got == want => at += 1,
                (Got::End, None) => break,
                (Got::Error(_), _) if hit => break,
                (Got::Error(e), _) => return Err(format!("item {at} of inode {ino} is an error: {e}")),
                (Got::End, _) => return Err(format!("inode {ino} ends after {at} items")),
                (Got::Item(got), Some(want)) => {
                    return Err(format!("item {at} of inode {ino} is {}, should be {}", show(&got), show(&want)));
                }
                (Got::Item(got), None) => return Err(format!("inode {ino} goes on with {}", show(&got))),
            }
        }
    }
    Ok(())
}

/// Judges with one of several kinds of device.
fn judge_on(ctx: &Ctx, l: &Local, image: &Image, bad: &[Region], kind: usize, damage: &Damage) -> Result<(), String> {
    let ranges: Vec<(u64, u64)> = bad.iter().map(|(from, len)| (*from, from + len)).collect();
    let dev = |bs: u32| {
        let dev = SimDev::new(image.clone(), bs);
        dev.shared.set_bad(&ranges);
        dev
    };
    match kind {
        0 => judge(ctx, l, dev(512), damage),
        1 => judge(ctx, l, BlockDeviceReader::new(dev(l.bs() as u32).sharing_cursor()), damage),
        2 => judge(ctx, l, dev(512).sharing_cursor(), damage),
        _ => {
            let bytes = image.bytes(0, image.size as usize);
            judge(ctx, l, InMemoryBlockDevice::new(bytes, BlockSize(512)), damage)
        }
    }
}

fn overwrite(image: &mut Image, region: Region, kind: usize) {
    let (from, len) = region;
    let old = image.bytes(from, len as usize);
    let new: Vec<u8> = match kind {
        0 => vec![0; old.len()],
        1 => vec![0xff; old.len()],
        2 => old.iter().map(|b| !b).collect(),
        3 => old.iter().enumerate().map(|(i, b)| b ^ (i as u8 | 1)).collect(),
        // What is elsewhere.
        _ => image.bytes((from + image.size / 2) % (image.size - len), len as usize),
    };
    image.write(from, &new);
}

/// The parts of a device that are in none of the regions.
fn complement(size: u64, keep: &[Region]) -> Vec<Region> {
    let mut keep = keep.to_vec();
    keep.sort_unstable();
    let mut rest = Vec::new();
    let mut at = 0;
    for (from, len) in keep {
        if from > at {
            rest.push((at, from - at));
        }
        at = at.max(from + len);
    }
    if at < size {
        rest.push((at, size - at));
    }
    rest
}

fn any(damaged: &[Region], region: Region) -> bool {
    damaged.iter().any(|d| overlap(*d, region))
}

const GARBLINGS: [&str; 5] = ["zeros", "ones", "inverted", "garbage", "what is elsewhere"];

/// An array that holds the filesystem, its members, and which sectors of its
/// are in the same row as a sector of a member.
struct Raid {
    spec: ArraySpec,
    members: Vec<Image>,
    /// A device that belongs to the array without a part of its contents.
    spare: Image,
}

impl Raid {
    fn new(layout: u32, n: u32, chunk: u32, image: &Image) -> Self {
        let base = array_spec(6, layout, n, chunk, image);
        let spec = spec(Flavour::V1_2, 6, layout, n, chunk, base.size, 24, 1);
        let members = array_members(&spec, image);
        let mut spare = Image::new(spec.device_size);
        let mut sb = spec.v1(0);
        sb.roles.push(0xffff);
        sb.dev_number = n;
        sb.device_uuid = [0xcc; 16];
        spare.write(superblock_offset(spec.flavour, spec.device_size), &sb.encode());
        Self { spec, members, spare }
    }

    /// The regions of the array that need a sector of the members.
    fn affected(&self, sector: u64) -> Vec<Region> {
        let Some(row) = sector.checked_sub(self.spec.data_offset) else {
            return vec![];
        };
        if row >= self.spec.size {
            return vec![];
        }
        let chunk = u64::from(self.spec.chunk);
        let data = u64::from(self.spec.data_count());
        (0..data)
            .map(|d| (((row / chunk * data + d) * chunk + row % chunk) * 512, 512))
            .collect()
    }

    fn array(&self, members: &[Image], bad: &[Vec<Region>], spare: bool) -> MdArray<SimDev> {
        let mut devices: Vec<_> = members.iter().zip(bad).enumerate().map(|(i, (image, bad))| {
            let dev = SimDev::new(image.clone(), 512);
            let ranges: Vec<(u64, u64)> = bad.iter().map(|(from, len)| (*from, from + len)).collect();
            dev.shared.set_bad(&ranges);
            open_device(dev, i)
        })
        .collect();
        if spare {
            // Nothing but its superblock can be read.
            let dev = SimDev::new(self.spare.clone(), 512);
            dev.shared.set_bad(&[
                (0, SUPERBLOCK.start * 512),
                (SUPERBLOCK.end * 512, self.spec.device_size),
            ]);
            devices.insert(1, open_device(dev, 99));
        }
        MdArray::open(devices)
    }

    /// Reads the array sector by sector.
    fn judge(&self, ctx: &Ctx, l: &Local, mut array: MdArray<SimDev>, affected: &[Region]) -> Result<(), String> {
        for sector in 0..l.fs.image.size / 512 {
            ctx.step();
            match read_block(&mut array, sector) {
                Ok(got) if got[..] == l.fs.image.bytes(sector * 512, 512) => {}
                Ok(_) => return Err(format!("sector {sector} of the array is wrong")),
                Err(_) if any(affected, (sector * 512, 512)) => {}
                Err(e) => return Err(format!("sector {sector} of the array cannot be read: {e}")),
            }
        }
        Ok(())
    }
}

/// Sectors that a superblock of version 1.2 may take.
const SUPERBLOCK: std::ops::Range<u64> = 8..16;

fn run(e: &mut Explorer) {
    let thorough = e.thorough;
    let kinds: &[(u32, Csum)] = if thorough {
        &[(0, Csum::None), (0, Csum::Uuid), (2, Csum::Uuid), (1, Csum::None), (1, Csum::Seed(5)), (2, Csum::None)]
    } else {
        &[(0, Csum::None), (0, Csum::Uuid), (2, Csum::Uuid)]
    };
    let locals: Vec<Local> = kinds.iter().map(|(log_bs, csum)| local(*log_bs, *csum)).collect();
    let locals = &locals;

    e.family("unreadable", &|ctx: &Ctx| {
        let which = ctx.choose(locals.len());
        let l = &locals[which];
        let kind = ctx.choose(3);
        let first = ctx.choose((l.fs.image.size / 512) as usize) as u64;
        let len = *ctx.pick(&[1u64, 2, 9]);
        let bad = [(first * 512, len * 512)];
        ctx.obs(&(which, kind, first, len));
        ctx.note(|| format!("{len} sectors from {first} on are unreadable"));
        let damage = Damage {
            touched: &|region| any(&bad, region),
            garbled: None,
        };
        judge_on(ctx, l, &l.fs.image, &bad, kind, &damage)
    });

    e.family("unreadable: every error", &|ctx: &Ctx| {
        let _failure = Failure::choose(ctx);
        let which = ctx.choose(locals.len().min(3));
        let l = &locals[which];
        let kind = ctx.choose(2);
        let bad = [l.block(ctx.range(1, l.fs.geo.blocks as usize - 1) as u64)];
        ctx.obs(&(which, kind, bad, failure_errno()));
        ctx.note(|| format!("{bad:?} is unreadable"));
        let damage = Damage {
            touched: &|region| any(&bad, region),
            garbled: None,
        };
        judge_on(ctx, l, &l.fs.image, &bad, kind, &damage)
    });

    e.family("unreadable-blocks", &|ctx: &Ctx| {
        // Two blocks anywhere (and three).
        let which = ctx.choose(locals.len());
        let l = &locals[which];
        let blocks = l.fs.geo.blocks as usize;
        let kind = ctx.choose(2);
        let count = if thorough && which < 2 { 3 } else { 2 };
        let mut bad: Vec<Region> = Vec::new();
        let mut from = 2;
        for _ in 0..count {
            if from == blocks {
                return Ok(());
            }
            let block = ctx.range(from, blocks - 1);
            bad.push(l.block(block as u64));
            from = block + 1;
        }
        ctx.obs(&(which, kind, &bad));
        ctx.note(|| format!("{bad:?} are unreadable"));
        let damage = Damage {
            touched: &|region| any(&bad, region),
            garbled: None,
        };
        judge_on(ctx, l, &l.fs.image, &bad, kind, &damage)
    });

    e.family("changed-bytes", &|ctx: &Ctx| {
        let which = ctx.choose(locals.len());
        let l = &locals[which];
        let at = ctx.choose(l.fs.image.size as usize) as u64;
        let old = l.fs.image.bytes(at, 1)[0];
        let value = match ctx.choose(if thorough { 6 } else { 2 }) {
            0 => !old,
            1 => old ^ 1,
            2 => old ^ 0x80,
            3 => old.wrapping_add(1),
            4 => old ^ 0x10,
            _ => old ^ 0x42,
        };
        let mut image = l.fs.image.clone();
        image.write(at, &[value]);
        ctx.obs(&(which, at, value));
        ctx.note(|| format!("byte {at:#x} is {value:#x}"));
        let damage = Damage {
            touched: &|region| overlap((at, 1), region),
            garbled: Some(&image),
        };
        judge_on(ctx, l, &image, &[], 0, &damage)
    });

    e.family("overwritten", &|ctx: &Ctx| {
        let which = ctx.choose(locals.len());
        let l = &locals[which];
        let kind = ctx.choose(4);
        let unit = *ctx.pick(&[64u64, 512, 4096]);
        let region = (ctx.choose((l.fs.image.size / unit) as usize) as u64 * unit, unit);
        let how = ctx.choose(5);
        let mut image = l.fs.image.clone();
        overwrite(&mut image, region, how);
        ctx.obs(&(which, kind, region, how));
        ctx.note(|| format!("{region:?} is overwritten by {}", GARBLINGS[how]));
        let damage = Damage {
            touched: &|r| overlap(region, r),
            garbled: Some(&image),
        };
        judge_on(ctx, l, &image, &[], kind, &damage)
    });

    e.family("all-but-needed", &|ctx: &Ctx| {
        // Everything but what the first steps of one thing need is damaged.
        let which = ctx.choose(locals.len());
        let l = &locals[which];
        let kind = ctx.choose(4);
        let thing = ctx.pick(&l.things);
        let count = ctx.choose(thing.steps.len() + 1);
        let how = ctx.choose(6);
        if how == 5 && kind == 3 {
            return Ok(());
        }
        ctx.obs(&(which, kind, thing.ino, count, how));
        ctx.note(|| {
            format!(
                "all but what {count} items of inode {} need is {}",
                thing.ino,
                GARBLINGS.get(how).unwrap_or(&"unreadable")
            )
        });
        let needs = l.needs(thing, count);
        if how == 5 {
            let keep: Vec<Region> = needs.iter().chain([&l.descriptors()]).map(|r| l.rounded(*r)).collect();
            let bad = complement(l.fs.image.size, &keep);
            let damage = Damage {
                touched: &|region| any(&bad, region),
                garbled: None,
            };
            judge_on(ctx, l, &l.fs.image, &bad, kind, &damage)
        } else {
            let rest = complement(l.fs.image.size, &needs);
            let mut image = l.fs.image.clone();
            for (from, len) in &rest {
                for at in (*from..from + len).step_by(4096) {
                    overwrite(&mut image, (at, 4096.min(from + len - at)), how);
                }
            }
            let damage = Damage {
                touched: &|region| any(&rest, region),
                garbled: Some(&image),
            };
            judge_on(ctx, l, &image, &[], kind, &damage)
        }
    });

    // On an array.
    let raids: Vec<Raid> = RAID6_LAYOUTS
        .iter()
        .flat_map(|layout| [(*layout, 4, 2), (*layout, 5, 8), (*layout, 6, 1)])
        .map(|(layout, n, chunk)| Raid::new(layout, n, chunk, &locals[1].fs.image))
        .collect();
    let raids = &raids;
    let l = &locals[1];

    e.family("member-sectors", &|ctx: &Ctx| {
        let which = ctx.choose(raids.len());
        let raid = &raids[which];
        if !thorough && which % 3 != which / 3 % 3 {
            return Ok(());
        }
        let member = ctx.choose(raid.members.len());
        let sector = ctx.choose((raid.spec.device_size / 512) as usize) as u64;
        if SUPERBLOCK.contains(&sector) {
            return Ok(());
        }
        let how = ctx.choose(if thorough { 6 } else { 3 });
        let mut members = raid.members.clone();
        let mut bad = vec![vec![]; members.len()];
        match how {
            0 => bad[member].push((sector * 512, 512)),
            how => overwrite(&mut members[member], (sector * 512, 512), how - 1),
        }
        ctx.obs(&(which, member, sector, how));
        ctx.note(|| format!("{:?}: sector {sector} of member {member} is damaged ({how})", raid.spec));
        let affected = raid.affected(sector);
        let damage = Damage {
            touched: &|region| any(&affected, region),
            garbled: None,
        };
        let spare = ctx.flag();
        let array = raid.array(&members, &bad, spare);
        if spare {
            judge(ctx, l, BlockDeviceReader::new(array), &damage)
        } else {
            raid.judge(ctx, l, array, &affected)
        }
    });

    // Devices are recognised whatever else on them cannot be read.
    let sizes: &[u64] = if thorough { &[16, 64, 68, 127, 128, 192, 200] } else { &[64, 68, 128, 200] };
    e.family("superblocks", &|ctx: &Ctx| {
        let flavour = *ctx.pick(&[
            Flavour::V1_2,
            Flavour::V1_1,
            Flavour::V1_0,
            Flavour::V0Little,
            Flavour::V0Big,
        ]);
        let size = *ctx.pick(sizes) << 10;
        let old = matches!(flavour, Flavour::V0Little | Flavour::V0Big);
        if old && size < 65536 {
            return Ok(());
        }
        let spec = spec(flavour, 6, 2, 4, 8, 8, 24, 1);
        let at = superblock_offset(flavour, size);
        let place = (at, 4096.min(size - at));
        let mut image = Image::new(size);
        image.write(at, &spec.superblock(1));
        let sectors = size / 512;
        let n = ctx.choose(sectors as usize + 1) as u64;
        let (bad, how) = if n == sectors {
            (complement(size, &[place]), 0)
        } else {
            (vec![(n * 512, 512)], ctx.choose(3))
        };
        if bad.iter().any(|b| overlap(*b, place)) {
            return Ok(());
        }
        if how > 0 {
            overwrite(&mut image, bad[0], how);
        }
        ctx.nontrivial();
        ctx.obs(&(flavour, size, n, how));
        ctx.note(|| format!("{flavour:?} on {size} bytes: sector {n} is damaged ({how})"));
        let stream = ctx.flag();
        let dev = SimDev::new(image, 512);
        if how == 0 {
            let ranges: Vec<(u64, u64)> = bad.iter().map(|(from, len)| (*from, from + len)).collect();
            dev.shared.set_bad(&ranges);
        }
        ctx.step();
        let found = |superblock: &MdDeviceSuperblock| match superblock {
            MdDeviceSuperblock::Superblock(superblock) => Some(superblock.data_offset().0),
            _ => None,
        };
        let want = Some(spec.data_offset);
        let got = if stream {
            let device = MdDevice::from_block_device(BlockDeviceReader::new(dev), Some("device"));
            found(&device.map_err(|e| format!("the device does not open: {e}"))?.superblock)
        } else {
            let device = MdDevice::from_block_device(dev, Some("device"));
            found(&device.map_err(|e| format!("the device does not open: {e}"))?.superblock)
        };
        if got == want {
            Ok(())
        } else {
            Err(format!("the superblock says {got:?}, not {want:?}"))
        }
    });

    e.family("members-all-but-needed", &|ctx: &Ctx| {
        let which = ctx.choose(raids.len());
        let raid = &raids[which];
        let thing = ctx.pick(&l.things);
        let count = ctx.choose(thing.steps.len() + 1);
        ctx.obs(&(which, thing.ino, count));
        ctx.note(|| {
            format!(
                "{:?}: only what {count} items of inode {} need is readable",
                raid.spec, thing.ino
            )
        });
        let mut needs: Vec<Region> = l.needs(thing, count).iter().map(|r| l.rounded(*r)).collect();
        needs.push(l.rounded(l.descriptors()));
        let mut keep: Vec<Region> = vec![(SUPERBLOCK.start * 512, (SUPERBLOCK.end - SUPERBLOCK.start) * 512)];
        let mut lost: Vec<Region> = Vec::new();
        for sector in raid.spec.data_offset..raid.spec.data_offset + raid.spec.size {
            let affected = raid.affected(sector);
            if affected.iter().any(|a| any(&needs, *a)) {
                keep.push((sector * 512, 512));
            } else {
                lost.extend(affected);
            }
        }
        let bad = complement(raid.spec.device_size, &keep);
        let damage = Damage {
            touched: &|region| any(&lost, region),
            garbled: None,
        };
        let bad = vec![bad; raid.members.len()];
        let array = raid.array(&raid.members, &bad, ctx.flag());
        judge(ctx, l, BlockDeviceReader::new(array), &damage)
    });
}
