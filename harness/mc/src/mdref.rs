//! Reference model of Linux MD: superblocks as Linux and mdadm write them, the
//! placement of data and parity, and the contents of array members. Nothing
//! here uses the code under test.

use crate::simdev::Image;

pub const RAID5_LAYOUTS: [u32; 6] = [0, 1, 2, 3, 4, 5];
pub const RAID6_LAYOUTS: [u32; 14] = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20];

pub fn layout_name(level: u32, layout: u32) -> &'static str {
    match (level, layout) {
        (_, 0) => "left-asymmetric",
        (_, 1) => "right-asymmetric",
        (_, 2) => "left-symmetric",
        (_, 3) => "right-symmetric",
        (_, 4) => "parity-first",
        (_, 5) => "parity-last",
        (6, 8) => "ddf-zero-restart",
        (6, 9) => "ddf-N-restart",
        (6, 10) => "ddf-N-continue",
        (6, 16) => "left-asymmetric-6",
        (6, 17) => "right-asymmetric-6",
        (6, 18) => "left-symmetric-6",
        (6, 19) => "right-symmetric-6",
        (6, 20) => "parity-first-6",
        _ => "?",
    }
}

/// Where one stripe keeps its chunks: the devices of P, of Q (RAID 6), and of
/// the data chunks in order.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Stripe {
    pub p: u32,
    pub q: Option<u32>,
    pub data: Vec<u32>,
}

/// The placement in the given stripe, transcribed from `raid5_compute_sector`
/// of the Linux kernel (drivers/md/raid5.c).
pub fn linux_stripe(level: u32, layout: u32, n: u32, stripe: u64) -> Stripe {
    let raid_disks = u64::from(n);
    let data_disks = raid_disks - if level == 5 { 1 } else { 2 };
    let mut data = Vec::new();
    let (mut pd, mut qd) = (0, None);
    for dd in 0..data_disks {
        let mut dd_idx = dd;
        let pd_idx;
        let mut qd_idx = None;
        if level == 5 {
            match layout {
                0 => {
                    pd_idx = data_disks - stripe % raid_disks;
                    if dd_idx >= pd_idx {
                        dd_idx += 1;
                    }
                }
                1 => {
                    pd_idx = stripe % raid_disks;
                    if dd_idx >= pd_idx {
                        dd_idx += 1;
                    }
                }
                2 => {
                    pd_idx = data_disks - stripe % raid_disks;
                    dd_idx = (pd_idx + 1 + dd_idx) % raid_disks;
                }
                3 => {
                    pd_idx = stripe % raid_disks;
                    dd_idx = (pd_idx + 1 + dd_idx) % raid_disks;
                }
                4 => {
                    pd_idx = 0;
                    dd_idx += 1;
                }
                5 => pd_idx = data_disks,
                _ => panic!("harness: layout"),
            }
        } else {
            match layout {
                0 | 1 | 8 | 9 => {
                    pd_idx = match layout {
                        0 => raid_disks - 1 - stripe % raid_disks,
                        1 | 8 => stripe % raid_disks,
                        _ => raid_disks - 1 - (stripe + 1) % raid_disks,
                    };
                    let mut q = pd_idx + 1;
                    if pd_idx == raid_disks - 1 {
                        dd_idx += 1;
                        q = 0;
                    } else if dd_idx >= pd_idx {
                        dd_idx += 2;
                    }
                    qd_idx = Some(q);
                }
                2 | 3 => {
                    pd_idx = if layout == 2 {
                        raid_disks - 1 - stripe % raid_disks
                    } else {
                        stripe % raid_disks
                    };
                    qd_idx = Some((pd_idx + 1) % raid_disks);
                    dd_idx = (pd_idx + 2 + dd_idx) % raid_disks;
                }
                4 => {
                    pd_idx = 0;
                    qd_idx = Some(1);
                    dd_idx += 2;
                }
                5 => {
                    pd_idx = data_disks;
                    qd_idx = Some(data_disks + 1);
                }
                10 => {
                    pd_idx = raid_disks - 1 - stripe % raid_disks;
                    qd_idx = Some((pd_idx + raid_disks - 1) % raid_disks);
                    dd_idx = (pd_idx + 1 + dd_idx) % raid_disks;
                }
                16 | 17 => {
                    pd_idx = if layout == 16 {
                        data_disks - stripe % (raid_disks - 1)
                    } else {
                        stripe % (raid_disks - 1)
                    };
                    if dd_idx >= pd_idx {
                        dd_idx += 1;
                    }
                    qd_idx = Some(raid_disks - 1);
                }
                18 | 19 => {
                    pd_idx = if layout == 18 {
                        data_disks - stripe % (raid_disks - 1)
                    } else {
                        stripe % (raid_disks - 1)
                    };
                    dd_idx = (pd_idx + 1 + dd_idx) % (raid_disks - 1);
                    qd_idx = Some(raid_disks - 1);
                }
                20 => {
                    pd_idx = 0;
                    dd_idx += 1;
                    qd_idx = Some(raid_disks - 1);
                }
                _ => panic!("harness: layout"),
            }
        }
        pd = pd_idx as u32;
        qd = qd_idx.map(|q| q as u32);
        data.push(dd_idx as u32);
    }
    Stripe { p: pd, q: qd, data }
}

/// The same placement as a state machine: how it looks in stripe 0, and how it
/// changes from one stripe to the next. Written from the pictures in md(4) and
/// the DDF specification rather than from the kernel's arithmetic, so that the
/// two descriptions check each other.
pub fn first_stripe(level: u32, layout: u32, n: u32) -> Stripe {
    let parity = if level == 5 { 1 } else { 2 };
    let last = n - 1;
    let (p, q) = match (level, layout) {
        (5, 0 | 2 | 5) => (last, None),
        (5, _) => (0, None),
        // P on the last device, Q wrapped around to the first.
        (_, 0 | 2) => (last, Some(0)),
        (_, 1 | 3 | 4 | 8) => (0, Some(1)),
        (_, 5 | 9) => (last - 1, Some(last)),
        (_, 10) => (last, Some(last - 1)),
        (_, 16 | 18) => (last - 1, Some(last)),
        (_, _) => (0, Some(last)),
    };
    place(level, layout, n, p, q, n - parity)
}

fn place(level: u32, layout: u32, n: u32, p: u32, q: Option<u32>, data_count: u32) -> Stripe {
    // "Continuation" layouts put the first data chunk on the device after the
    // parity, wrapping around; "restart" layouts on the first free device.
    let wheel = if level == 6 && (16..=20).contains(&layout) {
        n - 1
    } else {
        n
    };
    let continues = matches!(layout, 2 | 3 | 10 | 18 | 19);
    let start = if !continues {
        0
    } else {
        match (layout, q) {
            (2 | 3, Some(q)) => (q + 1) % wheel,
            _ => (p + 1) % wheel,
        }
    };
    let data: Vec<u32> = (0..wheel)
        .map(|i| (start + i) % wheel)
        .filter(|d| *d != p && Some(*d) != q)
        .collect();
    assert_eq!(data.len() as u32, data_count, "harness: placement");
    Stripe { p, q, data }
}

pub fn next_stripe(level: u32, layout: u32, n: u32, s: &Stripe) -> Stripe {
    let back = |d: u32, w: u32| (d + w - 1) % w;
    let forth = |d: u32, w: u32| (d + 1) % w;
    let (p, q) = match (level, layout) {
        (_, 4 | 5) | (6, 20) => (s.p, s.q),
        (_, 0 | 2) | (6, 9 | 10) => (back(s.p, n), s.q.map(|q| back(q, n))),
        (_, 1 | 3) | (6, 8) => (forth(s.p, n), s.q.map(|q| forth(q, n))),
        (6, 16 | 18) => (back(s.p, n - 1), s.q),
        (6, 17 | 19) => (forth(s.p, n - 1), s.q),
        _ => panic!("harness: layout"),
    };
    place(level, layout, n, p, q, s.data.len() as u32)
}

/// After how many stripes the placement repeats.
pub fn period(level: u32, layout: u32, n: u32) -> u64 {
    match (level, layout) {
        (_, 4 | 5) | (6, 20) => 1,
        (6, 16..=19) => u64::from(n) - 1,
        _ => u64::from(n),
    }
}

/// A version 1 superblock.
#[derive(Clone)]
pub struct V1 {
    pub features: u32,
    pub uuid: [u8; 16],
    pub name: [u8; 32],
    pub ctime: u64,
    pub level: u32,
    pub layout: u32,
    pub size: u64,
    pub chunk: u32,
    pub raid_disks: u32,
    pub bitmap_offset: u32,
    pub new_level: u32,
    pub reshape_position: u64,
    pub delta_disks: u32,
    pub new_layout: u32,
    pub new_chunk: u32,
    pub new_offset: u32,
    pub data_offset: u64,
    pub data_size: u64,
    pub super_offset: u64,
    pub recovery_offset: u64,
    pub dev_number: u32,
    pub device_uuid: [u8; 16],
    pub utime: u64,
    pub events: u64,
    pub resync_offset: u64,
    pub max_dev: u32,
    pub roles: Vec<u16>,
}

impl V1 {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![0u8; 4096];
        let mut put = |at: usize, bytes: &[u8]| b[at..at + bytes.len()].copy_from_slice(bytes);
        put(0, &0xa92b4efcu32.to_le_bytes());
        put(4, &1u32.to_le_bytes());
        put(8, &self.features.to_le_bytes());
        put(16, &self.uuid);
        put(32, &self.name);
        put(64, &self.ctime.to_le_bytes());
        put(72, &self.level.to_le_bytes());
        put(76, &self.layout.to_le_bytes());
        put(80, &self.size.to_le_bytes());
        put(88, &self.chunk.to_le_bytes());
        put(92, &self.raid_disks.to_le_bytes());
        put(96, &self.bitmap_offset.to_le_bytes());
        put(100, &self.new_level.to_le_bytes());
        put(104, &self.reshape_position.to_le_bytes());
        put(112, &self.delta_disks.to_le_bytes());
        put(116, &self.new_layout.to_le_bytes());
        put(120, &self.new_chunk.to_le_bytes());
        put(124, &self.new_offset.to_le_bytes());
        put(128, &self.data_offset.to_le_bytes());
        put(136, &self.data_size.to_le_bytes());
        put(144, &self.super_offset.to_le_bytes());
        put(152, &self.recovery_offset.to_le_bytes());
        put(160, &self.dev_number.to_le_bytes());
        put(168, &self.device_uuid);
        put(192, &self.utime.to_le_bytes());
        put(200, &self.events.to_le_bytes());
        put(208, &self.resync_offset.to_le_bytes());
        put(220, &self.max_dev.to_le_bytes());
        // Linux fills unused slots with 0xffff ("spare").
        for i in 0..1920 {
            let role = self.roles.get(i).copied().unwrap_or(0xffff);
            put(256 + 2 * i, &role.to_le_bytes());
        }
        let csum = v1_checksum(&b, self.max_dev);
        b[216..220].copy_from_slice(&csum.to_le_bytes());
        b
    }
}

fn v1_checksum(b: &[u8], max_dev: u32) -> u32 {
    let size = (256 + 2 * max_dev as usize).min(4096);
    let mut sum = 0u64;
    let mut at = 0;
    while size - at >= 4 {
        if at != 216 {
            sum += u64::from(u32::from_le_bytes(b[at..at + 4].try_into().unwrap()));
        }
        at += 4;
    }
    if size - at == 2 {
        sum += u64::from(u16::from_le_bytes(b[at..at + 2].try_into().unwrap()));
    }
    (sum as u32).wrapping_add((sum >> 32) as u32)
}

/// A version 0 superblock.
#[derive(Clone)]
pub struct V0 {
    pub big_endian: bool,
    pub minor: u32,
    pub uuid: [u32; 4],
    pub ctime: u32,
    pub level: u32,
    /// In KiB.
    pub size: u32,
    pub nr_disks: u32,
    pub raid_disks: u32,
    pub utime: u32,
    pub state: u32,
    pub events: u64,
    pub cp_events: u64,
    pub recovery_cp: u32,
    pub reshape_position: u64,
    pub new_level: u32,
    pub delta_disks: u32,
    pub new_layout: u32,
    /// In bytes.
    pub new_chunk: u32,
    pub layout: u32,
    /// In bytes.
    pub chunk: u32,
    /// (number, raid_disk, state) of each descriptor.
    pub disks: Vec<(u32, u32, u32)>,
    pub this_disk: (u32, u32, u32),
}

impl V0 {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = vec![0u32; 1024];
        w[0] = 0xa92b4efc;
        w[1] = 0;
        w[2] = self.minor;
        w[5] = self.uuid[0];
        w[6] = self.ctime;
        w[7] = self.level;
        w[8] = self.size;
        w[9] = self.nr_disks;
        w[10] = self.raid_disks;
        w[13] = self.uuid[1];
        w[14] = self.uuid[2];
        w[15] = self.uuid[3];
        w[32] = self.utime;
        w[33] = self.state;
        w[34] = self.raid_disks;
        w[35] = self.nr_disks;
        let pair = |v: u64| {
            if self.big_endian {
                [(v >> 32) as u32, v as u32]
            } else {
                [v as u32, (v >> 32) as u32]
            }
        };
        w[39..41].copy_from_slice(&pair(self.events));
        w[41..43].copy_from_slice(&pair(self.cp_events));
        w[43] = self.recovery_cp;
        w[44..46].copy_from_slice(&pair(self.reshape_position));
        w[46] = self.new_level;
        w[47] = self.delta_disks;
        w[48] = self.new_layout;
        w[49] = self.new_chunk;
        w[64] = self.layout;
        w[65] = self.chunk;
        for (i, disk) in self.disks.iter().enumerate() {
            put_disk(&mut w, 128 + 32 * i, disk);
        }
        put_disk(&mut w, 992, &self.this_disk);
        w[38] = 0;
        let sum: u64 = w.iter().map(|w| u64::from(*w)).sum();
        w[38] = (sum as u32).wrapping_add((sum >> 32) as u32);
        w.iter()
            .flat_map(|w| {
                if self.big_endian {
                    w.to_be_bytes()
                } else {
                    w.to_le_bytes()
                }
            })
            .collect()
    }
}

fn put_disk(w: &mut [u32], at: usize, disk: &(u32, u32, u32)) {
    w[at] = disk.0;
    w[at + 1] = 8;
    w[at + 2] = disk.0.wrapping_mul(16);
    w[at + 3] = disk.1;
    w[at + 4] = disk.2;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Flavour {
    V0Little,
    V0Big,
    V1_0,
    V1_1,
    V1_2,
}

pub const FLAVOURS: [Flavour; 5] = [
    Flavour::V0Little,
    Flavour::V0Big,
    Flavour::V1_0,
    Flavour::V1_1,
    Flavour::V1_2,
];

/// Where each kind of superblock lives on a device of the given size.
pub fn superblock_offset(flavour: Flavour, device_size: u64) -> u64 {
    match flavour {
        // MD_NEW_SIZE_SECTORS: 64 KiB before the end rounded down to 64 KiB.
        Flavour::V0Little | Flavour::V0Big => device_size / 65536 * 65536 - 65536,
        // 8 KiB before the end, rounded down to 4 KiB.
        Flavour::V1_0 => (device_size / 512 - 16) / 8 * 8 * 512,
        Flavour::V1_1 => 0,
        Flavour::V1_2 => 4096,
    }
}

/// A RAID 5 or 6 array as mdadm would create it.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct ArraySpec {
    pub flavour: Flavour,
    pub level: u32,
    pub layout: u32,
    pub n: u32,
    /// In sectors.
    pub chunk: u32,
    /// Sectors of each member that the array may use.
    pub size: u64,
    /// In sectors; always 0 for version 0.
    pub data_offset: u64,
    /// Bytes of each member.
    pub device_size: u64,
    pub seed: u64,
}

/// What array sector `sector` contains.
pub fn data_sector(seed: u64, sector: u64) -> [u8; 512] {
    let mut x = seed ^ sector.wrapping_mul(0x9e3779b97f4a7c15);
    let mut out = [0; 512];
    for chunk in out.chunks_exact_mut(8) {
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

fn gf_mul2(x: u8) -> u8 {
    (x << 1) ^ if x & 0x80 != 0 { 0x1d } else { 0 }
}

impl ArraySpec {
    pub fn parity_count(&self) -> u32 {
        if self.level == 5 {
            1
        } else {
            2
        }
    }

    pub fn data_count(&self) -> u32 {
        self.n - self.parity_count()
    }

    pub fn stripes(&self) -> u64 {
        self.size / u64::from(self.chunk)
    }

    pub fn array_sectors(&self) -> u64 {
        self.stripes() * u64::from(self.chunk) * u64::from(self.data_count())
    }

    /// (stripe, index of the data chunk, sector within the member's data).
    pub fn locate(&self, sector: u64) -> (u64, usize, u64) {
        let chunk = u64::from(self.chunk);
        let data = u64::from(self.data_count());
        let (chunk_no, in_chunk) = (sector / chunk, sector % chunk);
        let stripe = chunk_no / data;
        (stripe, (chunk_no % data) as usize, stripe * chunk + in_chunk)
    }

    pub fn stripe(&self, stripe: u64) -> Stripe {
        linux_stripe(self.level, self.layout, self.n, stripe)
    }

    pub fn v1(&self, device: u32) -> V1 {
        V1 {
            features: 0,
            uuid: *b"0123456789abcdef",
            name: *b"host:array\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
            ctime: 1_600_000_000,
            level: self.level,
            layout: self.layout,
            size: self.size,
            chunk: self.chunk,
            raid_disks: self.n,
            bitmap_offset: 8,
            new_level: 0,
            reshape_position: 0,
            delta_disks: 0,
            new_layout: 0,
            new_chunk: 0,
            new_offset: 0,
            data_offset: self.data_offset,
            data_size: self.size,
            super_offset: superblock_offset(self.flavour, self.device_size) / 512,
            recovery_offset: 0,
            dev_number: device,
            device_uuid: [device as u8; 16],
            utime: 1_600_000_001,
            events: 42,
            resync_offset: u64::MAX,
            max_dev: self.n.next_multiple_of(128),
            roles: (0..self.n as u16).collect(),
        }
    }

    pub fn v0(&self, device: u32) -> V0 {
        V0 {
            big_endian: self.flavour == Flavour::V0Big,
            minor: 90,
            uuid: [0x01020304, 0x05060708, 0x090a0b0c, 0x0d0e0f10],
            ctime: 1_600_000_000,
            level: self.level,
            size: (self.size / 2) as u32,
            nr_disks: self.n,
            raid_disks: self.n,
            utime: 1_600_000_001,
            state: 1,
            events: 42,
            cp_events: 42,
            recovery_cp: u32::MAX,
            reshape_position: 0,
            new_level: 0,
            delta_disks: 0,
            new_layout: 0,
            new_chunk: 0,
            layout: self.layout,
            chunk: self.chunk * 512,
            disks: (0..self.n).map(|i| (i, i, 6)).collect(),
            this_disk: (device, device, 6),
        }
    }

    pub fn superblock(&self, device: u32) -> Vec<u8> {
        match self.flavour {
            Flavour::V0Little | Flavour::V0Big => self.v0(device).encode(),
            _ => self.v1(device).encode(),
        }
    }

    /// The members, with every stripe for which `wanted` holds.
    pub fn build_stripes(&self, wanted: impl Fn(u64) -> bool) -> Vec<Image> {
        self.build_with(wanted, |sector| data_sector(self.seed, sector))
    }

    pub fn build(&self) -> Vec<Image> {
        self.build_stripes(|_| true)
    }

    pub fn build_with(
        &self,
        wanted: impl Fn(u64) -> bool,
        content: impl Fn(u64) -> [u8; 512],
    ) -> Vec<Image> {
        let mut members: Vec<Image> =
            (0..self.n).map(|_| Image::new(self.device_size)).collect();
        let chunk = u64::from(self.chunk);
        let stripes = self.stripes();
        let mut s = 0;
        while s < stripes {
            if !wanted(s) {
                s += 1;
                continue;
            }
            let stripe = self.stripe(s);
            for in_chunk in 0..chunk {
                let at = (self.data_offset + s * chunk + in_chunk) * 512;
                let mut p = [0u8; 512];
                let mut blocks: Vec<Option<[u8; 512]>> = vec![None; self.n as usize];
                for (i, d) in stripe.data.iter().enumerate() {
                    let sector = (s * stripe.data.len() as u64 + i as u64) * chunk + in_chunk;
                    let data = content(sector);
                    for (p, d) in p.iter_mut().zip(&data) {
                        *p ^= d;
                    }
                    members[*d as usize].write(at, &data);
                    blocks[*d as usize] = Some(data);
                }
                members[stripe.p as usize].write(at, &p);
                if let Some(q) = stripe.q {
                    members[q as usize].write(at, &self.q_block(q, &blocks));
                }
            }
            s += 1;
        }
        let offset = superblock_offset(self.flavour, self.device_size);
        for (i, member) in members.iter_mut().enumerate() {
            member.write(offset, &self.superblock(i as u32));
        }
        members
    }

    /// Q as Linux computes it: a Horner evaluation over the data devices, in
    /// device order from the one after Q (DDF layouts: from device 0).
    fn q_block(&self, q: u32, blocks: &[Option<[u8; 512]>]) -> [u8; 512] {
        let ddf = matches!(self.layout, 8..=10);
        let start = if ddf || q == self.n - 1 { 0 } else { q + 1 };
        let mut acc = [0u8; 512];
        let order: Vec<usize> = (0..self.n).map(|i| ((start + i) % self.n) as usize).collect();
        for slot in order.iter().rev() {
            let Some(block) = &blocks[*slot] else {
                continue;
            };
            for (a, b) in acc.iter_mut().zip(block) {
                *a = gf_mul2(*a) ^ b;
            }
        }
        acc
    }
}
