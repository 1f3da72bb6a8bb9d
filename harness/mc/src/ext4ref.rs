//! Writes ext4 filesystems: an independent reference for the on-disk format,
//! after the kernel's documentation of it (Documentation/filesystems/ext4) and
//! `fs/ext4/*.h`. Nothing here uses code of the program under test.

use crate::simdev::Image;
use std::collections::BTreeMap;

/// Reflected CRC-32C update without the final inversion, as the kernel's
/// `ext4_chksum`.
pub fn crc32c(mut crc: u32, bytes: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let table = TABLE.get_or_init(|| {
        let mut table = [0u32; 256];
        for (i, entry) in table.iter_mut().enumerate() {
            let mut v = i as u32;
            for _ in 0..8 {
                v = if v & 1 == 1 { (v >> 1) ^ 0x82f6_3b78 } else { v >> 1 };
            }
            *entry = v;
        }
        table
    });
    for b in bytes {
        crc = table[((crc ^ u32::from(*b)) & 0xff) as usize] ^ (crc >> 8);
    }
    crc
}

pub fn put(buf: &mut [u8], offset: usize, width: usize, value: u64) {
    buf[offset..][..width].copy_from_slice(&value.to_le_bytes()[..width]);
}

pub fn get(buf: &[u8], offset: usize, width: usize) -> u64 {
    let mut bytes = [0; 8];
    bytes[..width].copy_from_slice(&buf[offset..][..width]);
    u64::from_le_bytes(bytes)
}

pub mod feature {
    pub const INCOMPAT_FILETYPE: u32 = 0x2;
    pub const COMPAT_SPARSE_SUPER2: u32 = 0x200;
    pub const INCOMPAT_META_BG: u32 = 0x10;
    pub const INCOMPAT_EXTENTS: u32 = 0x40;
    pub const INCOMPAT_64BIT: u32 = 0x80;
    pub const INCOMPAT_FLEX_BG: u32 = 0x200;
    pub const INCOMPAT_CSUM_SEED: u32 = 0x2000;
    pub const RO_SPARSE_SUPER: u32 = 0x1;
    pub const RO_LARGE_FILE: u32 = 0x2;
    pub const RO_HUGE_FILE: u32 = 0x8;
    pub const RO_DIR_NLINK: u32 = 0x20;
    pub const RO_EXTRA_ISIZE: u32 = 0x40;
    pub const RO_BIGALLOC: u32 = 0x200;
    pub const RO_METADATA_CSUM: u32 = 0x400;
}

pub mod mode {
    pub const FIFO: u16 = 0x1000;
    pub const CHAR: u16 = 0x2000;
    pub const DIR: u16 = 0x4000;
    pub const BLOCK: u16 = 0x6000;
    pub const REG: u16 = 0x8000;
    pub const LINK: u16 = 0xa000;
    pub const SOCK: u16 = 0xc000;
}

pub mod iflag {
    pub const INDEX: u32 = 0x1000;
    pub const EXTENTS: u32 = 0x80000;
    pub const INLINE_DATA: u32 = 0x1000_0000;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Csum {
    None,
    /// metadata_csum, seeded from the UUID.
    Uuid,
    /// metadata_csum with metadata_csum_seed.
    Seed(u32),
}

/// The dimensions of a filesystem.
#[derive(Clone, Debug, Hash)]
pub struct Geo {
    pub log_bs: u32,
    pub blocks_per_group: u32,
    pub inodes_per_group: u32,
    pub inode_size: u16,
    pub desc_size: u16,
    pub first_data_block: u32,
    pub blocks: u64,
    pub csum: Csum,
    /// Log2 of blocks per cluster (bigalloc if not 0).
    pub log_cluster: u32,
    pub uuid: [u8; 16],
    /// The first block of descriptors that is in its own meta block group.
    pub meta_bg: Option<u32>,
    /// Which groups have copies of the superblock.
    pub sparse: Sparse,
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Sparse {
    All,
    Powers,
    Two([u32; 2]),
}

impl Geo {
    /// A filesystem as mke2fs makes it by default, but small.
    pub fn small(log_bs: u32, csum: Csum) -> Self {
        let bs = 1024u32 << log_bs;
        Self {
            log_bs,
            blocks_per_group: 8 * bs,
            inodes_per_group: 16.max(bs / 256),
            inode_size: 256,
            desc_size: 64,
            first_data_block: u32::from(log_bs == 0),
            blocks: 256,
            csum,
            log_cluster: 0,
            meta_bg: None,
            sparse: Sparse::Powers,
            uuid: *b"\x3b\x01\x9c\xde\x77\x42\x4f\x10\xa5\x5a\xff\x00\x13\x37\xbe\xef",
        }
    }

    pub fn bs(&self) -> usize {
        1024 << self.log_bs
    }

    pub fn groups(&self) -> u32 {
        // The kernel leaves the blocks before the first data block out.
        let blocks = self.blocks - u64::from(self.first_data_block);
        blocks.div_ceil(u64::from(self.blocks_per_group)) as u32
    }

    /// Group descriptors follow the block that holds the superblock. (That is
    /// not the first data block if clusters are larger than blocks of 1 KiB.)
    pub fn descriptors_block(&self) -> u64 {
        1024 / self.bs() as u64 + 1
    }

    /// Whether a group begins with (a copy of) the superblock.
    pub fn has_super(&self, group: u32) -> bool {
        let power_of = |base: u32| {
            let mut n = 1u64;
            while n < u64::from(group) {
                n *= u64::from(base);
            }
            n == u64::from(group)
        };
        match self.sparse {
            _ if group == 0 => true,
            Sparse::All => true,
            Sparse::Two(groups) => groups.contains(&group),
            Sparse::Powers => group == 1 || power_of(3) || power_of(5) || power_of(7),
        }
    }

    /// Where the descriptor of a group is, in bytes: with meta block groups,
    /// each of them begins with its own block of descriptors.
    pub fn descriptor_at(&self, group: u32) -> u64 {
        let bs = self.bs() as u64;
        let per_block = bs / u64::from(self.desc_size);
        let index = u64::from(group) / per_block;
        let block = match self.meta_bg {
            Some(first) if index >= u64::from(first) && index > 0 => {
                let leader = index * per_block;
                u64::from(self.first_data_block)
                    + leader * u64::from(self.blocks_per_group)
                    + u64::from(self.has_super(leader as u32))
            }
            _ => self.descriptors_block() + index,
        };
        block * bs + u64::from(group) % per_block * u64::from(self.desc_size)
    }

    pub fn inodes(&self) -> u32 {
        self.groups() * self.inodes_per_group
    }

    pub fn seed(&self) -> Option<u32> {
        match self.csum {
            Csum::None => None,
            Csum::Uuid => Some(crc32c(!0, &self.uuid)),
            Csum::Seed(seed) => Some(seed),
        }
    }

    /// The blocks one inode table takes up.
    pub fn table_blocks(&self) -> u64 {
        (u64::from(self.inodes_per_group) * u64::from(self.inode_size)).div_ceil(self.bs() as u64)
    }

    pub fn superblock(&self) -> [u8; 1024] {
        use feature::*;
        let mut sb = [0u8; 1024];
        let mut set = |offset: usize, width: usize, value: u64| put(&mut sb, offset, width, value);
        set(0x00, 4, self.inodes().into());
        set(0x04, 4, self.blocks & 0xffff_ffff);
        set(0x150, 4, self.blocks >> 32);
        set(0x0c, 4, self.blocks.min(9) & 0xffff_ffff);
        set(0x10, 4, 5);
        set(0x14, 4, self.first_data_block.into());
        set(0x18, 4, self.log_bs.into());
        set(0x1c, 4, (self.log_bs + self.log_cluster).into());
        set(0x20, 4, self.blocks_per_group.into());
        set(0x24, 4, (self.blocks_per_group >> self.log_cluster).into());
        set(0x28, 4, self.inodes_per_group.into());
        set(0x30, 4, 1_700_000_000);
        set(0x36, 2, 0xffff);
        set(0x38, 2, 0xef53);
        set(0x3a, 2, 1);
        set(0x3c, 2, 1);
        set(0x40, 4, 1_700_000_000);
        set(0x4c, 4, 1);
        set(0x54, 4, 11);
        set(0x58, 2, self.inode_size.into());
        set(0x5c, 4, 0x3c);
        let mut incompat = INCOMPAT_FILETYPE | INCOMPAT_EXTENTS | INCOMPAT_FLEX_BG;
        if self.desc_size >= 64 {
            incompat |= INCOMPAT_64BIT;
        }
        if let Some(first) = self.meta_bg {
            incompat |= INCOMPAT_META_BG;
            set(0x104, 4, first.into());
        }
        let mut ro = RO_LARGE_FILE | RO_HUGE_FILE | RO_DIR_NLINK;
        match self.sparse {
            Sparse::All => {}
            Sparse::Powers => ro |= RO_SPARSE_SUPER,
            Sparse::Two([a, b]) => {
                set(0x5c, 4, 0x3c | u64::from(COMPAT_SPARSE_SUPER2));
                set(0x24c, 4, a.into());
                set(0x250, 4, b.into());
            }
        }
        if self.inode_size > 128 {
            ro |= RO_EXTRA_ISIZE;
        }
        if self.log_cluster > 0 {
            ro |= RO_BIGALLOC;
        }
        if self.csum != Csum::None {
            ro |= RO_METADATA_CSUM;
            set(0x175, 1, 1);
        }
        if let Csum::Seed(seed) = self.csum {
            incompat |= INCOMPAT_CSUM_SEED;
            set(0x270, 4, seed.into());
        }
        set(0x60, 4, incompat.into());
        set(0x64, 4, ro.into());
        set(0xfe, 2, self.desc_size.into());
        set(0x108, 4, 1_600_000_000);
        set(0x15c, 2, if self.inode_size > 128 { 32 } else { 0 });
        set(0x15e, 2, if self.inode_size > 128 { 32 } else { 0 });
        set(0x174, 1, 4);
        sb[0x68..0x78].copy_from_slice(&self.uuid);
        seal_superblock(&mut sb);
        sb
    }
}

/// Recomputes the checksum of a superblock (if it has one).
pub fn seal_superblock(sb: &mut [u8; 1024]) {
    let crc = crc32c(!0, &sb[..1020]);
    if get(sb, 0x64, 4) as u32 & feature::RO_METADATA_CSUM != 0 {
        put(sb, 1020, 4, crc.into());
    }
}

/// The raw bytes of an inode.
#[derive(Clone)]
pub struct RawInode(pub Vec<u8>);

impl RawInode {
    /// An inode with an empty extent tree.
    pub fn new(inode_size: u16, mode: u16, size: u64) -> Self {
        let mut inode = Self(vec![0; inode_size.into()]);
        inode.set(0x00, 2, mode.into());
        inode.set(0x1a, 2, 1);
        inode.set_size(size);
        inode.set(0x20, 4, iflag::EXTENTS.into());
        inode.set(0x64, 4, 0x1234_5678);
        inode.set_root(&empty_root());
        if inode_size > 128 {
            inode.set(0x80, 2, 32);
        }
        inode
    }

    pub fn set(&mut self, offset: usize, width: usize, value: u64) {
        put(&mut self.0, offset, width, value)
    }

    pub fn set_size(&mut self, size: u64) {
        self.set(0x04, 4, size & 0xffff_ffff);
        self.set(0x6c, 4, size >> 32);
    }

    pub fn set_root(&mut self, root: &[u8; 60]) {
        self.0[0x28..0x28 + 60].copy_from_slice(root)
    }

    pub fn generation(&self) -> u32 {
        get(&self.0, 0x64, 4) as u32
    }
}

pub fn empty_root() -> [u8; 60] {
    let mut root = [0; 60];
    put_header(&mut root, 0, 4, 0);
    root
}

pub fn put_header(node: &mut [u8], entries: u16, max: u16, depth: u16) {
    put(node, 0, 2, 0xf30a);
    put(node, 2, 2, entries.into());
    put(node, 4, 2, max.into());
    put(node, 6, 2, depth.into());
}

/// A run of blocks of a file.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Run {
    pub logical: u32,
    pub len: u16,
    pub start: u64,
    pub unwritten: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tree {
    Leaf(Vec<Run>),
    /// Children with their first logical block and the block they are in.
    Index(Vec<(u32, u64, Tree)>),
}

impl Tree {
    pub fn depth(&self) -> u16 {
        match self {
            Tree::Leaf(_) => 0,
            Tree::Index(children) => 1 + children.first().map_or(0, |c| c.2.depth()),
        }
    }

    pub fn put_entries(&self, node: &mut [u8]) -> u16 {
        match self {
            Tree::Leaf(runs) => {
                for (i, run) in runs.iter().enumerate() {
                    let at = 12 + 12 * i;
                    put(node, at, 4, run.logical.into());
                    let len = u64::from(run.len);
                    assert!(
                        (run.unwritten && (1..=0x7fff).contains(&len))
                            || (!run.unwritten && (1..=0x8000).contains(&len)),
                        "harness: bad extent length"
                    );
                    put(node, at + 4, 2, if run.unwritten { len + 0x8000 } else { len });
                    put(node, at + 6, 2, run.start >> 32);
                    put(node, at + 8, 4, run.start & 0xffff_ffff);
                }
                runs.len() as u16
            }
            Tree::Index(children) => {
                for (i, (logical, block, _)) in children.iter().enumerate() {
                    let at = 12 + 12 * i;
                    put(node, at, 4, (*logical).into());
                    put(node, at + 4, 4, block & 0xffff_ffff);
                    put(node, at + 8, 2, block >> 32);
                    put(node, at + 10, 2, 0);
                }
                children.len() as u16
            }
        }
    }
}

/// The contents of a block of data, a function of its number.
pub fn pattern(block: u64, out: &mut [u8]) {
    let mut x = block.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x5bd1_e995_1234_5678;
    for chunk in out.chunks_mut(8) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        // Never zero, so that data cannot be mistaken for a hole.
        let bytes = (x | 0x0101_0101_0101_0101).to_le_bytes();
        chunk.copy_from_slice(&bytes[..chunk.len()]);
    }
}

pub fn pattern_block(block: u64, bs: usize) -> Vec<u8> {
    let mut out = vec![0; bs];
    pattern(block, &mut out);
    out
}

/// One record of a directory block.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Record {
    pub inode: u32,
    pub name: Vec<u8>,
    pub file_type: u8,
    /// The length of the record; 0 for the least possible.
    pub rec_len: usize,
}

impl Record {
    pub fn new(inode: u32, name: &[u8], file_type: u8) -> Self {
        Self {
            inode,
            name: name.to_vec(),
            file_type,
            rec_len: 0,
        }
    }

    pub fn least(&self) -> usize {
        (8 + self.name.len()).div_ceil(4) * 4
    }

    pub fn len(&self) -> usize {
        self.rec_len.max(self.least())
    }
}

/// A filesystem being written.
#[derive(Clone)]
pub struct Fs {
    pub geo: Geo,
    pub sb: [u8; 1024],
    pub image: Image,
    /// The first block of the inode table of each group.
    pub tables: BTreeMap<u32, u64>,
    /// The first block that is not in use yet.
    pub next: u64,
    /// What is in the fields of group descriptors that do not matter.
    pub noise: u8,
}

impl Fs {
    pub fn new(geo: Geo) -> Self {
        let groups = geo.groups();
        let bs = geo.bs() as u64;
        let gdt = geo.descriptors_block();
        let gdt_blocks = (u64::from(groups) * u64::from(geo.desc_size)).div_ceil(bs);
        let mut next = gdt + gdt_blocks;
        let few = groups.min(64);
        let mut tables = BTreeMap::new();
        for group in 0..few {
            tables.insert(group, next);
            next += geo.table_blocks();
        }
        Self::with_tables(geo, tables, next)
    }

    /// With the inode tables of some groups at the given blocks.
    pub fn with_tables(geo: Geo, tables: BTreeMap<u32, u64>, next: u64) -> Self {
        let bs = geo.bs() as u64;
        let mut fs = Self {
            sb: geo.superblock(),
            image: Image::new(geo.blocks * bs),
            tables,
            next,
            noise: 0,
            geo,
        };
        fs.write_superblock();
        for group in fs.tables.keys().copied().collect::<Vec<_>>() {
            fs.write_descriptor(group);
        }
        fs
    }

    pub fn bs(&self) -> usize {
        self.geo.bs()
    }

    pub fn write_superblock(&mut self) {
        seal_superblock(&mut self.sb);
        let sb = self.sb;
        self.image.write(1024, &sb);
    }

    pub fn descriptor_at(&self, group: u32) -> u64 {
        self.geo.descriptor_at(group)
    }

    pub fn write_descriptor(&mut self, group: u32) {
        let mut d = vec![0; self.geo.desc_size.into()];
        let table = self.tables[&group];
        match self.noise {
            0 => {}
            1 => d.fill(0xff),
            2 => pattern(u64::from(group) + 12345, &mut d),
            // Nothing is in use.
            _ => {
                put(&mut d, 0x0e, 2, self.geo.inodes_per_group.into());
                put(&mut d, 0x1c, 2, self.geo.inodes_per_group.into());
                put(&mut d, 0x12, 2, 7);
            }
        }
        put(&mut d, 0x08, 4, table & 0xffff_ffff);
        if self.noise == 0 {
            put(&mut d, 0x12, 2, 4);
        }
        if d.len() >= 64 {
            put(&mut d, 0x28, 4, table >> 32);
        }
        if let Some(seed) = self.geo.seed() {
            put(&mut d, 0x1e, 2, 0);
            let crc = crc32c(crc32c(seed, &group.to_le_bytes()), &d);
            put(&mut d, 0x1e, 2, u64::from(crc & 0xffff));
        }
        self.image.write(self.descriptor_at(group), &d);
    }

    pub fn alloc(&mut self, blocks: u64) -> u64 {
        let block = self.next;
        self.next += blocks;
        assert!(self.next <= self.geo.blocks, "harness: filesystem full");
        block
    }

    pub fn write_block(&mut self, block: u64, bytes: &[u8]) {
        assert!(bytes.len() == self.bs(), "harness: not a block");
        self.image.write(block * self.bs() as u64, bytes);
    }

    /// Fills a block with its pattern.
    pub fn write_pattern(&mut self, block: u64) {
        let bytes = pattern_block(block, self.bs());
        self.write_block(block, &bytes);
    }

    pub fn inode_at(&self, ino: u32) -> u64 {
        let group = (ino - 1) / self.geo.inodes_per_group;
        let slot = (ino - 1) % self.geo.inodes_per_group;
        self.tables[&group] * self.bs() as u64
            + u64::from(slot) * u64::from(self.geo.inode_size)
    }

    /// The seed of the checksums of an inode and its blocks.
    pub fn inode_seed(&self, ino: u32, generation: u32) -> Option<u32> {
        self.geo.seed().map(|seed| {
            crc32c(
                crc32c(seed, &ino.to_le_bytes()),
                &generation.to_le_bytes(),
            )
        })
    }

    pub fn write_inode(&mut self, ino: u32, inode: &RawInode) {
        let mut bytes = inode.0.clone();
        assert!(
            bytes.len() == usize::from(self.geo.inode_size),
            "harness: inode size"
        );
        if let Some(seed) = self.inode_seed(ino, inode.generation()) {
            let has_high = bytes.len() > 128 && get(&bytes, 0x80, 2) >= 4;
            put(&mut bytes, 0x7c, 2, 0);
            if has_high {
                put(&mut bytes, 0x82, 2, 0);
            }
            let crc = crc32c(seed, &bytes);
            put(&mut bytes, 0x7c, 2, u64::from(crc & 0xffff));
            if has_high {
                put(&mut bytes, 0x82, 2, u64::from(crc >> 16));
            }
        }
        self.image.write(self.inode_at(ino), &bytes);
    }

    /// The number of entries that fit in a block of an extent tree.
    pub fn node_max(&self) -> u16 {
        ((self.bs() - 12) / 12) as u16
    }

    /// Recomputes the checksum at the end of a block of an extent tree.
    pub fn seal_node(&self, ino: u32, generation: u32, node: &mut [u8]) {
        if let Some(seed) = self.inode_seed(ino, generation) {
            let tail = 12 + 12 * usize::from(get(node, 4, 2) as u16);
            if tail + 4 <= node.len() {
                let crc = crc32c(seed, &node[..tail]);
                put(node, tail, 4, crc.into());
            }
        }
    }

    pub fn node(&self, ino: u32, generation: u32, tree: &Tree) -> Vec<u8> {
        let mut node = vec![0; self.bs()];
        let entries = tree.put_entries(&mut node);
        assert!(entries <= self.node_max(), "harness: node too full");
        put_header(&mut node, entries, self.node_max(), tree.depth());
        self.seal_node(ino, generation, &mut node);
        node
    }

    /// Writes the blocks of an extent tree, and returns its root.
    pub fn write_tree(&mut self, ino: u32, generation: u32, tree: &Tree) -> [u8; 60] {
        self.write_nodes(ino, generation, tree);
        let mut root = [0; 60];
        let entries = tree.put_entries(&mut root);
        put_header(&mut root, entries, 4, tree.depth());
        root
    }

    fn write_nodes(&mut self, ino: u32, generation: u32, tree: &Tree) {
        if let Tree::Index(children) = tree {
            for (_, block, child) in children {
                let node = self.node(ino, generation, child);
                self.write_block(*block, &node);
                self.write_nodes(ino, generation, child);
            }
        }
    }

    /// Puts a file with the given blocks into the filesystem.
    pub fn add_file(&mut self, ino: u32, mode: u16, size: u64, tree: &Tree) -> RawInode {
        let mut inode = RawInode::new(self.geo.inode_size, mode, size);
        let root = self.write_tree(ino, inode.generation(), tree);
        inode.set_root(&root);
        self.write_inode(ino, &inode);
        inode
    }

    /// The space for records in a directory block.
    pub fn dir_space(&self) -> usize {
        self.bs() - if self.geo.csum == Csum::None { 0 } else { 12 }
    }

    /// A directory block with the given records; the last one is extended to
    /// fill the block.
    pub fn dir_block(&self, ino: u32, generation: u32, records: &[Record]) -> Vec<u8> {
        let mut block = vec![0; self.bs()];
        let space = self.dir_space();
        let mut at = 0;
        for (i, record) in records.iter().enumerate() {
            let len = if i + 1 == records.len() {
                space - at
            } else {
                record.len()
            };
            assert!(len >= record.least(), "harness: directory block too full");
            put_record(&mut block[at..], record, len);
            at += len;
        }
        assert!(at == space, "harness: directory block not filled");
        self.seal_dir(ino, generation, &mut block);
        block
    }

    pub fn seal_dir(&self, ino: u32, generation: u32, block: &mut [u8]) {
        if let Some(seed) = self.inode_seed(ino, generation) {
            let tail = block.len() - 12;
            let crc = crc32c(seed, &block[..tail]);
            put(block, tail, 4, 0);
            put(block, tail + 4, 2, 12);
            put(block, tail + 6, 1, 0);
            put(block, tail + 7, 1, 0xde);
            put(block, tail + 8, 4, crc.into());
        }
    }

    /// Puts a directory with the given blocks into the filesystem, each in an
    /// extent of its own if `scattered`.
    pub fn add_dir(&mut self, ino: u32, blocks: &[Vec<Record>], scattered: bool) -> RawInode {
        let size = (blocks.len() * self.bs()) as u64;
        let mut inode = RawInode::new(self.geo.inode_size, mode::DIR | 0o755, size);
        let start = self.alloc(blocks.len() as u64 * if scattered { 2 } else { 1 });
        let mut runs = Vec::new();
        for (i, records) in blocks.iter().enumerate() {
            let block = start + i as u64 * if scattered { 2 } else { 1 };
            let bytes = self.dir_block(ino, inode.generation(), records);
            self.write_block(block, &bytes);
            runs.push(Run {
                logical: i as u32,
                len: 1,
                start: block,
                unwritten: false,
            });
        }
        if !scattered && !runs.is_empty() {
            runs = vec![Run {
                len: blocks.len() as u16,
                ..runs[0]
            }];
        }
        let root = self.write_tree(ino, inode.generation(), &Tree::Leaf(runs));
        inode.set_root(&root);
        self.write_inode(ino, &inode);
        inode
    }
}

pub fn put_record(out: &mut [u8], record: &Record, len: usize) {
    put(out, 0, 4, record.inode.into());
    // Lengths that do not fit 16 bits, in 64 KiB blocks.
    let stored = if len == 0x10000 { 0xffff } else { len as u64 };
    put(out, 4, 2, stored);
    put(out, 6, 1, record.name.len() as u64);
    put(out, 7, 1, record.file_type.into());
    out[8..][..record.name.len()].copy_from_slice(&record.name);
}
