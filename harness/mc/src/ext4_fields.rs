//! C11, C23: ext4 metadata fields and times.

use crate::explore::{Ctx, Explorer};
use crate::ext4ref::{feature, get, iflag, mode, put, Csum, Fs, Geo, RawInode};
use crate::simdev::SimDev;
use crate::{Check, Level};
use chrono::{DateTime, Utc};
use std::fmt::Debug;
use std::time::{Duration, SystemTime};
use sut::verif::ext4::{
    BlockGroupDescriptor, BlockGroupFlags, Checksum, CompatibleFeatures, CreatorOs,
    EncryptionAlgorithm, ErrorPolicy, Ext4File, Ext4Fs, Ext4String, FileMode, FileType,
    HashVersion, IncompatibleFeatures, Inode, InodeFlags, InodeNumber, Permissions,
    ReadOnlyCompatibleFeatures, State, Superblock,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            level: Level::Exploration,
            rule: "raw superblocks, group descriptors and inodes with every bit changed in turn on \
                   several backgrounds, and every value of the coded fields, are decoded by the \
                   real code; each reported field is compared with the bytes Linux keeps it in; \
                   every such case is non-trivial",
            assumptions: &[
                "the named default mount options are compared as raw bits only",
                "extra inode sizes that are no multiple of 4 or exceed the inode (which Linux \
                 rejects) are only checked not to crash or to invent data",
            ],
            note: "All single-bit changes of every structure against a table of field positions \
                   written from the kernel's documentation; all values of 8- and 16-bit codes; \
                   all inode sizes and extra sizes.",
            run: run_c11,
        },
        Check {
            id: "C23",
            level: Level::Exploration,
            rule: "every epoch, boundary second, single bit and nanosecond boundary is stored in \
                   each time field and decoded by the real code; non-trivial if the time is not 0",
            assumptions: &[
                "nanoseconds above 999,999,999 are not valid times and only checked not to crash",
            ],
            note: "All 4 epochs x boundary and single-bit seconds x boundary nanoseconds, for each \
                   of the inode's times, with and without the extra fields; all 40-bit boundary \
                   and single-bit seconds for each of the superblock's times.",
            run: run_c23,
        },
    ]
}

fn same<T: PartialEq + Debug>(name: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{name} is {got:?}, should be {want:?}"))
    }
}

fn seconds(time: SystemTime) -> u64 {
    time.duration_since(SystemTime::UNIX_EPOCH)
        .map_or(u64::MAX, |d| d.as_secs())
}

fn text(bytes: &[u8]) -> Vec<u8> {
    bytes.iter().copied().take_while(|b| *b != 0).collect()
}

fn content<S: AsRef<[u8]>>(string: &Ext4String<S>) -> Vec<u8> {
    <&[u8]>::from(string).to_vec()
}

/// Compares everything the program reports about a superblock with the bytes.
pub fn compare_superblock(raw: &[u8; 1024]) -> Result<(), String> {
    let sb = Superblock::new(&raw[..]);
    let n = |offset: usize, width: usize| get(raw, offset, width);
    let wide = |low: usize, high: usize| n(low, 4) | n(high, 4) << 32;
    let time = |low: usize, high: usize| n(low, 4) | n(high, 1) << 32;
    let optional = |time: Option<SystemTime>| time.map_or(0, seconds);
    macro_rules! eq {
        ($($name:ident: $got:expr, $want:expr;)*) => {
            $(same(stringify!($name), $got, $want)?;)*
        };
    }
    eq! {
        inodes_count: u64::from(sb.inodes_count().0), n(0x00, 4);
        blocks_count: u64::from(sb.blocks_count()), wide(0x04, 0x150);
        reserved_blocks_count: u64::from(sb.reserved_blocks_count()), wide(0x08, 0x154);
        free_blocks_count: u64::from(sb.free_blocks_count()), wide(0x0c, 0x158);
        free_inodes_count: u64::from(sb.free_inodes_count().0), n(0x10, 4);
        first_data_block: u64::from(sb.first_data_block()), n(0x14, 4);
        blocks_per_group: u64::from(sb.blocks_per_group()), n(0x20, 4);
        clusters_per_group: u64::from(sb.clusters_per_group()), n(0x24, 4);
        inodes_per_group: u64::from(sb.inodes_per_group().0), n(0x28, 4);
        mount_time: optional(sb.mount_time()), time(0x2c, 0x275);
        write_time: seconds(sb.write_time()), time(0x30, 0x274);
        mount_count: u64::from(sb.mount_count()), n(0x34, 2);
        max_mount_count: u64::from(sb.max_mount_count()), n(0x36, 2);
        magic: u64::from(sb.magic()), n(0x38, 2);
        state: u64::from(sb.state().bits()), n(0x3a, 2);
        error_policy: u64::from(u16::from(sb.error_policy())), n(0x3c, 2);
        minor_revision_level: u64::from(sb.minor_revision_level()), n(0x3e, 2);
        last_check_time: seconds(sb.last_check_time()), time(0x40, 0x277);
        check_interval: sb.check_interval().map_or(0, |d| d.as_secs()), n(0x44, 4);
        creator_os: u64::from(u32::from(sb.creator_os())), n(0x48, 4);
        revision_level: u64::from(sb.revision_level()), n(0x4c, 4);
        default_reserved_user_id: u64::from(sb.default_reserved_user_id()), n(0x50, 2);
        default_reserved_group_id: u64::from(sb.default_reserved_group_id()), n(0x52, 2);
        first_inode: u64::from(sb.first_inode()), n(0x54, 4);
        inode_size: u64::from(sb.inode_size()), n(0x58, 2);
        block_group_number: u64::from(sb.block_group_number()), n(0x5a, 2);
        compatible_features: u64::from(sb.compatible_features().bits()), n(0x5c, 4);
        incompatible_features: u64::from(sb.incompatible_features().bits()), n(0x60, 4);
        read_only_compatible_features: u64::from(sb.read_only_compatible_features().bits()), n(0x64, 4);
        uuid: &sb.uuid().into_bytes()[..], &raw[0x68..0x78];
        volume_name: sb.volume_name().map(|s| content(&s)).unwrap_or_default(), text(&raw[0x78..0x88]);
        last_mounted_path: sb.last_mounted_path().map(|s| content(&s)).unwrap_or_default(), text(&raw[0x88..0xc8]);
        algorithm_usage_bitmap: u64::from(sb.algorithm_usage_bitmap()), n(0xc8, 4);
        preallocate_blocks: u64::from(sb.preallocate_blocks()), n(0xcc, 1);
        preallocate_directory_blocks: u64::from(sb.preallocate_directory_blocks()), n(0xcd, 1);
        reserved_gdt_blocks: u64::from(sb.reserved_gdt_blocks()), n(0xce, 2);
        journal_uuid: &sb.journal_uuid().into_bytes()[..], &raw[0xd0..0xe0];
        journal_inode_number: u64::from(sb.journal_inode_number()), n(0xe0, 4);
        journal_device_number: u64::from(sb.journal_device_number()), n(0xe4, 4);
        last_orphan: u64::from(sb.last_orphan()), n(0xe8, 4);
        hash_seed: &sb.hash_seed()[..], &raw[0xec..0xfc];
        default_hash_version: u64::from(u8::from(sb.default_hash_version())), n(0xfc, 1);
        journal_backup_type: u64::from(sb.journal_backup_type()), n(0xfd, 1);
        group_descriptor_size: u64::from(sb.group_descriptor_size()), n(0xfe, 2);
        default_mount_options: u64::from(sb.default_mount_options().bits()), n(0x100, 4);
        first_meta_block_group: u64::from(sb.first_meta_block_group()), n(0x104, 4);
        creation_time: optional(sb.creation_time()), time(0x108, 0x276);
        journal_blocks: &sb.journal_blocks()[..], &raw[0x10c..0x150];
        minimum_extra_inode_size: u64::from(sb.minimum_extra_inode_size()), n(0x15c, 2);
        wanted_extra_inode_size: u64::from(sb.wanted_extra_inode_size()), n(0x15e, 2);
        flags: u64::from(sb.flags().bits()), n(0x160, 4);
        raid_stride: u64::from(sb.raid_stride()), n(0x164, 2);
        multi_mount_prevention_interval: u64::from(sb.multi_mount_prevention_interval()), n(0x166, 2);
        multi_mount_prevention_block: sb.multi_mount_prevention_block(), n(0x168, 8);
        raid_stripe_width: u64::from(sb.raid_stripe_width()), n(0x170, 4);
        kbytes_written: sb.kbytes_written(), n(0x178, 8);
        snapshot_inode_number: u64::from(sb.snapshot_inode_number()), n(0x180, 4);
        snapshot_id: u64::from(sb.snapshot_id()), n(0x184, 4);
        snapshot_reserved_blocks_count: sb.snapshot_reserved_blocks_count(), n(0x188, 8);
        snapshot_list_inode_number: u64::from(sb.snapshot_list_inode_number()), n(0x190, 4);
        error_count: u64::from(sb.error_count()), n(0x194, 4);
        first_error_time: optional(sb.first_error_time()), time(0x198, 0x278);
        first_error_inode: u64::from(sb.first_error_inode()), n(0x19c, 4);
        first_error_block: sb.first_error_block(), n(0x1a0, 8);
        first_error_function_name: sb.first_error_function_name().map(|s| content(&s)).unwrap_or_default(), text(&raw[0x1a8..0x1c8]);
        first_error_line: u64::from(sb.first_error_line()), n(0x1c8, 4);
        last_error_time: optional(sb.last_error_time()), time(0x1cc, 0x279);
        last_error_inode: u64::from(sb.last_error_inode()), n(0x1d0, 4);
        last_error_line: u64::from(sb.last_error_line()), n(0x1d4, 4);
        last_error_block: sb.last_error_block(), n(0x1d8, 8);
        last_error_function_name: sb.last_error_function_name().map(|s| content(&s)).unwrap_or_default(), text(&raw[0x1e0..0x200]);
        mount_options: content(&sb.mount_options()), text(&raw[0x200..0x240]);
        user_quota_inode_number: u64::from(sb.user_quota_inode_number()), n(0x240, 4);
        group_quota_inode_number: u64::from(sb.group_quota_inode_number()), n(0x244, 4);
        overhead_blocks: u64::from(sb.overhead_blocks()), n(0x248, 4);
        superblock_backup_block_groups: sb.superblock_backup_block_groups().map(u64::from), [n(0x24c, 4), n(0x250, 4)];
        encryption_algorithms: sb.encryption_algorithms().into_iter().map(u8::from).collect::<Vec<_>>(),
            raw[0x254..0x258].iter().copied().filter(|a| *a != 0).collect::<Vec<_>>();
        encryption_password_salt: &sb.encryption_password_salt()[..], &raw[0x258..0x268];
        lost_and_found_inode_number: u64::from(sb.lost_and_found_inode_number()), n(0x268, 4);
        project_quota_inode_number: u64::from(sb.project_quota_inode_number()), n(0x26c, 4);
        filename_character_encoding: u64::from(sb.filename_character_encoding()), n(0x27c, 2);
        filename_character_encoding_flags: u64::from(sb.filename_character_encoding_flags()), n(0x27e, 2);
        orphan_file_inode_number: u64::from(sb.orphan_file_inode_number()), n(0x280, 4);
    }
    if n(0x18, 4) < 53 {
        same("block_size_bytes", sb.block_size_bytes(), 1024 << n(0x18, 4))?;
    }
    if n(0x1c, 4) < 53 {
        same("cluster_size_blocks", sb.cluster_size_blocks(), 1024 << n(0x1c, 4))?;
    }
    if n(0x174, 1) < 63 {
        same("groups_per_flex", sb.groups_per_flex(), 1 << n(0x174, 1))?;
    }
    let stored = n(0x3fc, 4) as u32;
    same(
        "checksum",
        sb.checksum(),
        match n(0x175, 1) as u8 {
            0 => Checksum::None,
            1 => Checksum::Crc32c(stored),
            other => Checksum::Unknown(other, stored),
        },
    )?;
    same(
        "expected_checksum",
        sb.expected_checksum(),
        crate::ext4ref::crc32c(!0, &raw[..1020]),
    )?;
    let seed = if n(0x60, 4) as u32 & feature::INCOMPAT_CSUM_SEED != 0 {
        Some(n(0x270, 4) as u32)
    } else if n(0x64, 4) as u32 & feature::RO_METADATA_CSUM != 0 {
        Some(crate::ext4ref::crc32c(!0, &raw[0x68..0x78]))
    } else {
        None
    };
    if let Some(seed) = seed {
        same("checksum_seed", sb.checksum_seed(), seed)?;
    }
    Ok(())
}

pub fn compare_descriptor(raw: &[u8]) -> Result<(), String> {
    let mut full = [0u8; 64];
    let len = raw.len().min(64);
    full[..len].copy_from_slice(&raw[..len]);
    let d = BlockGroupDescriptor::new(raw);
    let n = |low: usize, high: usize, width: usize| {
        get(&full, low, width) | get(&full, high, width) << (8 * width)
    };
    macro_rules! eq {
        ($($name:ident: $got:expr, $want:expr;)*) => {
            $(same(stringify!($name), $got, $want)?;)*
        };
    }
    eq! {
        block_bitmap_block: u64::from(d.block_bitmap_block()), n(0x00, 0x20, 4);
        inode_bitmap_block: u64::from(d.inode_bitmap_block()), n(0x04, 0x24, 4);
        inode_table_block: u64::from(d.inode_table_block()), n(0x08, 0x28, 4);
        free_block_count: u64::from(u32::from(d.free_block_count())), n(0x0c, 0x2c, 2);
        free_inode_count: u64::from(d.free_inode_count()), n(0x0e, 0x2e, 2);
        used_directories_count: u64::from(d.used_directories_count()), n(0x10, 0x30, 2);
        flags: u64::from(d.flags().bits()), get(&full, 0x12, 2);
        exclude_bitmap_block: u64::from(d.exclude_bitmap_block()), n(0x14, 0x34, 4);
        block_bitmap_checksum: u64::from(d.block_bitmap_checksum()), n(0x18, 0x38, 2);
        inode_bitmap_checksum: u64::from(d.inode_bitmap_checksum()), n(0x1a, 0x3a, 2);
        unused_inode_count: u64::from(d.unused_inode_count()), n(0x1c, 0x32, 2);
        checksum: u64::from(d.checksum()), get(&full, 0x1e, 2);
    }
    Ok(())
}

/// What an on-disk inode provides: the base, and as much of the rest as its
/// extra size says.
fn provided(raw: &[u8], offset: usize, width: usize) -> u64 {
    let end = if offset < 128 {
        128
    } else if raw.len() > 130 {
        (128 + get(raw, 0x80, 2) as usize).min(raw.len())
    } else {
        0
    };
    if offset + width <= end {
        get(raw, offset, width)
    } else {
        0
    }
}

fn moment(seconds: i64, nanos: u32) -> Option<DateTime<Utc>> {
    DateTime::from_timestamp(seconds, nanos)
}

/// Linux's `ext4_decode_extra_time`; none if the nanoseconds are not valid.
fn inode_time(base: u64, extra: u64) -> Option<DateTime<Utc>> {
    let seconds = i64::from(base as u32 as i32) + ((extra as i64 & 3) << 32);
    let nanos = (extra >> 2) as u32;
    if nanos > 999_999_999 {
        None
    } else {
        moment(seconds, nanos)
    }
}

pub fn compare_inode(raw: &[u8], inode: &Inode) -> Result<(), String> {
    let p = |offset: usize, width: usize| provided(raw, offset, width);
    let mode = p(0x00, 2) as u16;
    macro_rules! eq {
        ($($name:ident: $got:expr, $want:expr;)*) => {
            $(same(stringify!($name), $got, $want)?;)*
        };
    }
    eq! {
        file_mode: u16::from(inode.file_mode()), mode;
        file_type: u8::from(inode.file_type()), (mode >> 12) as u8;
        permissions: inode.permissions().bits(), mode & 0xfff;
        owner_user_id: u64::from(inode.owner_user_id()), p(0x02, 2) | p(0x78, 2) << 16;
        group_id: u64::from(inode.group_id()), p(0x18, 2) | p(0x7a, 2) << 16;
        delete_time: inode.delete_time().timestamp(), p(0x14, 4) as i64;
        links_count: u64::from(inode.links_count()), p(0x1a, 2);
        block_count: u64::from(inode.block_count()), p(0x1c, 4) | p(0x74, 2) << 32;
        flags: u64::from(inode.flags().bits()), p(0x20, 4);
        version: inode.version(), p(0x24, 4) | p(0x98, 4) << 32;
        generation: u64::from(inode.generation()), p(0x64, 4);
        file_acl: inode.file_acl(), p(0x68, 4) | p(0x76, 2) << 32;
        checksum: u64::from(inode.checksum()), p(0x7c, 2) | p(0x82, 2) << 16;
        project_id: u64::from(inode.project_id()), p(0x9c, 4);
    }
    if mode & 0xf000 == mode::REG || p(0x6c, 4) == 0 {
        same(
            "file_size_bytes",
            inode.file_size_bytes(),
            p(0x04, 4) | p(0x6c, 4) << 32,
        )?;
    }
    for (name, got, base, extra) in [
        ("access_time", inode.access_time(), p(0x08, 4), p(0x8c, 4)),
        ("change_time", inode.change_time(), p(0x0c, 4), p(0x84, 4)),
        ("modified_time", inode.modified_time(), p(0x10, 4), p(0x88, 4)),
        ("creation_time", inode.creation_time(), p(0x90, 4), p(0x94, 4)),
    ] {
        if let Some(want) = inode_time(base, extra) {
            same(name, got, want)?;
        }
    }
    Ok(())
}

fn background(kind: usize, len: usize) -> Vec<u8> {
    (0..len)
        .map(|i| match kind {
            0 => 0,
            1 => 0xff,
            2 => (i as u8).wrapping_mul(37).wrapping_add(11),
            _ => (i as u8).wrapping_mul(201) ^ 0x5a,
        })
        .collect()
}

/// Names the flags of a bitflags type, so that they can be compared with the
/// values Linux gives them without depending on which ones exist.
macro_rules! named {
    ($type:ty) => {
        <$type>::all()
            .iter_names()
            .map(|(name, flag)| (name.to_string(), u64::from(flag.bits())))
            .collect::<Vec<_>>()
    };
}

fn flag_tables() -> Vec<(&'static str, Vec<(String, u64)>, &'static [(&'static str, u64)])> {
    vec![
        (
            "compatible feature",
            named!(CompatibleFeatures),
            &[
                ("DIRECTORY_PREALLOCATION", 1),
                ("MAGIC_INODES", 2),
                ("HAS_JOURNAL", 4),
                ("SUPPORTS_EXTENDED_ATTRIBUTES", 8),
                ("HAS_RESERVED_GDT_BLOCKS", 0x10),
                ("HAS_DIRECTORY_INDICES", 0x20),
                ("LAZY_BG", 0x40),
                ("EXCLUDE_INODE", 0x80),
                ("EXCLUDE_BITMAP", 0x100),
                ("SPARSE_SUPERBLOCK_V2", 0x200),
                ("SUPPORTS_FAST_COMMITS", 0x400),
                ("ORPHAN_PRESENT", 0x1000),
            ],
        ),
        (
            "incompatible feature",
            named!(IncompatibleFeatures),
            &[
                ("COMPRESSION", 1),
                ("DIRECTORY_ENTRIES_RECORD_FILE_TYPE", 2),
                ("NEEDS_RECOVERY", 4),
                ("HAS_SEPARATE_JOURNAL_DEVICE", 8),
                ("HAS_META_BLOCK_GROUPS", 0x10),
                ("FILES_USE_EXTENTS", 0x40),
                ("IS_64_BIT", 0x80),
                ("MULTIPLE_MOUNT_PROTECTION", 0x100),
                ("FLEXIBLE_BLOCK_GROUPS", 0x200),
                ("INODES_STORE_LARGE_EXTENDED_ATTRIBUTE_VALUES", 0x400),
                ("DATA_IN_DIRECTORY_ENTRY", 0x1000),
                ("METADATA_CHECKSUM_SEED", 0x2000),
                ("LARGE_DIRECTORIES", 0x4000),
                ("DATA_IN_INODE", 0x8000),
                ("HAS_ENCRYPTED_INODES", 0x10000),
            ],
        ),
        (
            "read-only compatible feature",
            named!(ReadOnlyCompatibleFeatures),
            &[
                ("SPARSE_SUPERBLOCKS", 1),
                ("CONTAINS_LARGE_FILES", 2),
                ("BTREE_DIR", 4),
                ("CONTAINS_HUGE_FILES", 8),
                ("GROUP_DESCRIPTORS_HAVE_CHECKSUMS", 0x10),
                ("UNLIMITED_SUBDIRECTORIES", 0x20),
                ("CONTAINS_LARGE_INODES", 0x40),
                ("HAS_SNAPSHOT", 0x80),
                ("QUOTA", 0x100),
                ("BIGALLOC", 0x200),
                ("METADATA_CHECKSUMS", 0x400),
                ("REPLICA", 0x800),
                ("READ_ONLY", 0x1000),
                ("PROJECT_QUOTA", 0x2000),
                ("VERITY", 0x8000),
                ("ORPHAN_PRESENT", 0x10000),
            ],
        ),
        (
            "state",
            named!(State),
            &[
                ("CLEANLY_UNMOUNTED", 1),
                ("ERRORS_DETECTED", 2),
                ("ORPHANS_BEING_RECOVERED", 4),
            ],
        ),
        (
            "group flag",
            named!(BlockGroupFlags),
            &[
                ("INODE_NOT_IN_USE", 1),
                ("BLOCK_BITMAP_NOT_IN_USE", 2),
                ("INODE_TABLE_ZEROED", 4),
            ],
        ),
        (
            "permission",
            named!(Permissions),
            &[
                ("SET_USER_ID", 0o4000),
                ("SET_GROUP_ID", 0o2000),
                ("STICKY", 0o1000),
                ("USER_READ", 0o400),
                ("USER_WRITE", 0o200),
                ("USER_EXECUTE", 0o100),
                ("GROUP_READ", 0o40),
                ("GROUP_WRITE", 0o20),
                ("GROUP_EXECUTE", 0o10),
                ("OTHER_READ", 4),
                ("OTHER_WRITE", 2),
                ("OTHER_EXECUTE", 1),
            ],
        ),
        (
            "inode flag",
            named!(InodeFlags),
            &[
                ("SECURE_DELETE", 1),
                ("UNDELETE", 2),
                ("COMPRESSED", 4),
                ("SYNCHRONOUS_UPDATES", 8),
                ("IMMUTABLE", 0x10),
                ("APPEND_ONLY", 0x20),
                ("NO_DUMP", 0x40),
                ("NO_UPDATE_ACCESS_TIME", 0x80),
                ("DIRTY", 0x100),
                ("COMPRESSED_CLUSTERS", 0x200),
                ("NO_COMPRESS", 0x400),
                ("ENCRYPTED", 0x800),
                ("HASH_INDEXED_DIRECTORY", 0x1000),
                ("AFS_DIRECTORY", 0x2000),
                ("JOURNAL_DATA", 0x4000),
                ("NO_TAIL_MERGE", 0x8000),
                ("DIRECTORY_SYNC", 0x10000),
                ("TOP_DIRECTORY", 0x20000),
                ("HUGE_FILE", 0x40000),
                ("HAS_EXTENTS", 0x80000),
                ("VERITY_PROTECTED", 0x100000),
                ("LARGE_EXTENDED_ATTRIBUTES", 0x200000),
                ("DIRECT_ACCESS", 0x2000000),
                ("HAS_INLINE_DATA", 0x10000000),
                ("INHERIT_PROJECT_ID", 0x20000000),
                ("CASE_FOLDED", 0x40000000),
                ("RESERVED", 0x80000000),
            ],
        ),
    ]
}

fn run_c11(e: &mut Explorer) {
    let fs = Fs::new(Geo::small(0, Csum::Uuid));
    let fs = &fs;

    e.family("superblock-bits", &|ctx: &Ctx| {
        let kind = ctx.choose(4);
        let mut raw: [u8; 1024] = background(kind, 1024).try_into().unwrap();
        let byte = ctx.choose(1024);
        let bit = ctx.choose(9);
        if bit < 8 {
            raw[byte] ^= 1 << bit;
        }
        ctx.note(|| format!("background {kind}, byte {byte:#x}, bit {bit}"));
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&raw[..]);
        compare_superblock(&raw)
    });

    e.family("superblock-bits-of-a-filesystem", &|ctx: &Ctx| {
        let mut raw = fs.sb;
        let byte = ctx.choose(1024);
        raw[byte] ^= 1 << ctx.choose(8);
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&raw[..]);
        compare_superblock(&raw)
    });

    // Fields of one byte, and every 16-bit code.
    e.family("superblock-codes", &|ctx: &Ctx| {
        let mut raw = fs.sb;
        let (offset, width) = *ctx.pick(&[(0x3au64, 2u64), (0x3c, 2), (0xfc, 1), (0x174, 1), (0x175, 1), (0x254, 1), (0x257, 1)]);
        let value = ctx.choose(1 << (8 * width)) as u64;
        put(&mut raw, offset as usize, width as usize, value);
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&(offset, value));
        compare_superblock(&raw)?;
        let sb = Superblock::new(&raw[..]);
        match offset {
            0x3c => same(
                "error policy",
                sb.error_policy(),
                match value as u16 {
                    1 => ErrorPolicy::Continue,
                    2 => ErrorPolicy::RemountReadOnly,
                    3 => ErrorPolicy::Panic,
                    other => ErrorPolicy::Unknown(other),
                },
            ),
            0xfc => same(
                "hash version",
                sb.default_hash_version(),
                match value as u8 {
                    0 => HashVersion::Legacy,
                    1 => HashVersion::HalfMd4,
                    2 => HashVersion::Tea,
                    3 => HashVersion::LegacyUnsigned,
                    4 => HashVersion::HalfMd4Unsigned,
                    5 => HashVersion::TeaUnsigned,
                    other => HashVersion::Unknown(other),
                },
            ),
            0x254 | 0x257 => same(
                "encryption algorithms",
                sb.encryption_algorithms(),
                match value as u8 {
                    0 => vec![],
                    1 => vec![EncryptionAlgorithm::Aes256Xts],
                    2 => vec![EncryptionAlgorithm::Aes256Gcm],
                    3 => vec![EncryptionAlgorithm::Aes256Cbc],
                    other => vec![EncryptionAlgorithm::Unknown(other)],
                },
            ),
            _ => Ok(()),
        }
    });

    e.family("creator-os", &|ctx: &Ctx| {
        let mut raw = fs.sb;
        let value = match ctx.choose(8 + 32) {
            n @ 0..=7 => n as u32,
            n => (1u32 << (n - 8)) | 1,
        };
        put(&mut raw, 0x48, 4, value.into());
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&value);
        same(
            "creator",
            Superblock::new(&raw[..]).creator_os(),
            match value {
                0 => CreatorOs::Linux,
                1 => CreatorOs::Hurd,
                2 => CreatorOs::Masix,
                3 => CreatorOs::FreeBsd,
                4 => CreatorOs::Lites,
                other => CreatorOs::Unknown(other),
            },
        )
    });

    // The lengths of the strings, with any byte before and after the end.
    e.family("superblock-strings", &|ctx: &Ctx| {
        let mut raw = fs.sb;
        let (offset, len) = *ctx.pick(&[(0x78, 16), (0x88, 64), (0x1a8, 32), (0x1e0, 32), (0x200, 64)]);
        let end = ctx.choose(len + 1);
        let filler = *ctx.pick(&[1u8, b'a', 0x7f, 0x80, 0xff]);
        let rest = *ctx.pick(&[0u8, b'b', 0xff]);
        for i in 0..len {
            raw[offset + i] = match i.cmp(&end) {
                std::cmp::Ordering::Less => filler,
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => rest,
            };
        }
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&(offset, end, filler, rest));
        compare_superblock(&raw)
    });

    e.family("descriptor-bits", &|ctx: &Ctx| {
        let len = *ctx.pick(&[32, 64, 128, 1024]);
        let kind = ctx.choose(4);
        let mut raw = background(kind, len);
        let byte = ctx.choose(64.min(len));
        let bit = ctx.choose(9);
        if bit < 8 {
            raw[byte] ^= 1 << bit;
        }
        ctx.note(|| format!("{len} bytes, background {kind}, byte {byte:#x}, bit {bit}"));
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&raw);
        compare_descriptor(&raw)
    });

    e.family("inode-bits", &|ctx: &Ctx| {
        let len = *ctx.pick(&[128usize, 256, 512]);
        let kind = ctx.choose(4);
        let mut raw = background(kind, len);
        if len > 128 {
            let extra = 4 * ctx.choose(13.min((len - 128) / 4));
            put(&mut raw, 0x80, 2, extra as u64);
        }
        let byte = ctx.choose(192.min(len));
        let bit = ctx.choose(9);
        if bit < 8 {
            // (But keep the extra size.)
            if len > 128 && (byte == 0x80 || byte == 0x81) {
                return Ok(());
            }
            raw[byte] ^= 1 << bit;
        }
        ctx.note(|| format!("{len} bytes, background {kind}, byte {byte:#x}, bit {bit}"));
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&raw);
        let sb = Superblock::new(&fs.sb[..]);
        let inode = Inode::new(&sb, InodeNumber(11), &raw);
        compare_inode(&raw, &inode)
    });

    // Every extra size, sensible or not, for every size of inode.
    e.family("inode-extra-size", &|ctx: &Ctx| {
        let len = *ctx.pick(&[128usize, 160, 256, 512, 1024, 4096]);
        let kind = ctx.choose(4);
        let mut raw = background(kind, len);
        let extra = ctx.choose(0x10000);
        if len > 128 {
            put(&mut raw, 0x80, 2, extra as u64);
        } else if extra > 0 {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&(len, kind, extra));
        let sb = Superblock::new(&fs.sb[..]);
        let inode = Inode::new(&sb, InodeNumber(11), &raw);
        if extra % 4 == 0 && 128 + extra <= len {
            compare_inode(&raw, &inode)
        } else {
            // What lies in the first 128 bytes must not depend on it.
            raw.truncate(128);
            let base = Inode::new(&sb, InodeNumber(11), &raw);
            let facts = |i: &Inode| {
                (
                    u16::from(i.file_mode()),
                    i.owner_user_id(),
                    i.group_id(),
                    i.file_size_bytes(),
                    i.links_count(),
                    i.flags().bits(),
                    u64::from(i.block_count()),
                    i.generation(),
                    i.file_acl(),
                    i.delete_time(),
                )
            };
            same("the base of the inode", facts(&inode), facts(&base))
        }
    });

    e.family("file-modes", &|ctx: &Ctx| {
        let value = ctx.choose(0x10000) as u16;
        let file_mode = FileMode::from(value);
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&value);
        same(
            "file type",
            file_mode.file_type(),
            match value & 0xf000 {
                mode::SOCK => FileType::Socket,
                mode::LINK => FileType::SymbolicLink,
                mode::REG => FileType::RegularFile,
                mode::BLOCK => FileType::BlockDevice,
                mode::DIR => FileType::Directory,
                mode::CHAR => FileType::CharacterDevice,
                mode::FIFO => FileType::Fifo,
                other => FileType::Unknown((other >> 12) as u8),
            },
        )?;
        same("permissions", file_mode.permissions().bits(), value & 0xfff)?;
        same(
            "recombined mode",
            u16::from(FileMode::from_file_type_and_permissions(
                file_mode.file_type(),
                file_mode.permissions(),
            )),
            value,
        )
    });

    e.family("flag-names", &|ctx: &Ctx| {
        let tables = flag_tables();
        let (what, has, wants) = &tables[ctx.choose(tables.len())];
        ctx.nontrivial();
        ctx.obs(what);
        for (name, bits) in has {
            ctx.step();
            if let Some((_, want)) = wants.iter().find(|(n, _)| n == name) {
                same(&format!("{what} {name}"), *bits, *want)?;
            }
        }
        Ok(())
    });

    // What an inode is taken for follows from its mode and known flags alone.
    e.family("inode-kinds", &|ctx: &Ctx| {
        let kind = ctx.choose(16) as u16;
        let permissions = *ctx.pick(&[0, 0o7777, 0o644]);
        let known = [iflag::EXTENTS, iflag::EXTENTS | iflag::INDEX, 0, iflag::EXTENTS | iflag::INLINE_DATA];
        let known = *ctx.pick(&known);
        let other = match ctx.choose(30) {
            0 => 0,
            n => {
                // Flags that do not change how the contents are stored.
                let bits = !(iflag::EXTENTS | iflag::INLINE_DATA | iflag::INDEX | 0x4 | 0x200 | 0x800);
                match (0..32).map(|b| 1u32 << b).filter(|b| b & bits != 0).nth(n - 1) {
                    Some(bit) => bit,
                    None => bits & 0x8000_0000,
                }
            }
        };
        let mut fs = fs.clone();
        let mut inode = RawInode::new(256, kind << 12 | permissions, 0);
        inode.set(0x20, 4, (known | other).into());
        fs.write_inode(12, &inode);
        let mut real = Ext4Fs::open(SimDev::new(fs.image.clone(), 512)).map_err(|e| format!("open: {e}"))?;
        let got = match real.open_file(InodeNumber(12)) {
            Ok(Ext4File::RegularFile(_)) => "a regular file".to_string(),
            Ok(Ext4File::Directory(_)) => "a directory".to_string(),
            Ok(Ext4File::Unsupported(t)) => format!("unsupported type {}", u8::from(t)),
            Err(_) => "an error".to_string(),
        };
        ctx.step();
        ctx.nontrivial();
        ctx.obs(&(kind, permissions, known, other));
        ctx.note(|| format!("mode type {kind:#x}, flags {:#x}: {got}", known | other));
        let readable = known & iflag::EXTENTS != 0 && known & iflag::INLINE_DATA == 0;
        let want = match kind << 12 {
            mode::REG if readable => "a regular file".to_string(),
            mode::DIR if readable && known & iflag::INDEX == 0 => "a directory".to_string(),
            mode::REG | mode::DIR => "an error".to_string(),
            _ => format!("unsupported type {kind}"),
        };
        same("the file", got, want)
    });

    // The root inode as the filesystem reports it.
    e.family("root-inode", &|ctx: &Ctx| {
        let inode_size = *ctx.pick(&[128u16, 256, 512]);
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid]);
        let mut fs = Fs::new(Geo {
            inode_size,
            ..Geo::small(0, csum)
        });
        let kind = ctx.choose(4);
        let mut inode = RawInode(background(kind, inode_size.into()));
        if inode_size > 128 {
            inode.set(0x80, 2, 4 * ctx.choose(9) as u64);
        }
        inode.set(0, 2, (mode::DIR | 0o755).into());
        inode.set(0x6c, 4, 0);
        fs.write_inode(2, &inode);
        let raw = fs.image.bytes(fs.inode_at(2), inode_size.into());
        let mut real = Ext4Fs::open(SimDev::new(fs.image.clone(), 512)).map_err(|e| format!("open: {e}"))?;
        let got = real.read_root_inode().map_err(|e| format!("root inode: {e}"))?;
        ctx.step();
        ctx.nontrivial();
        ctx.obs(&raw);
        compare_inode(&raw, &got)
    });

    if e.thorough {
        // Pairs of bits in the words that are split or gated.
        e.family("superblock-bit-pairs", &|ctx: &Ctx| {
            let mut raw: [u8; 1024] = background(ctx.choose(2), 1024).try_into().unwrap();
            let first = ctx.choose(0x284 * 8);
            raw[first / 8] ^= 1 << (first % 8);
            for second in first + 1..0x284 * 8 {
                raw[second / 8] ^= 1 << (second % 8);
                compare_superblock(&raw)
                    .map_err(|e| format!("bits {first} and {second}: {e}"))?;
                raw[second / 8] ^= 1 << (second % 8);
                ctx.step();
            }
            ctx.nontrivial();
            ctx.obs(&(first, raw[0]));
            Ok(())
        });
        e.family("inode-bit-pairs", &|ctx: &Ctx| {
            let len = *ctx.pick(&[128usize, 256]);
            let kind = ctx.choose(4);
            let mut raw = background(kind, len);
            let extra = *ctx.pick(&[0, 4, 24, 28, 32]);
            if len > 128 {
                put(&mut raw, 0x80, 2, extra);
            }
            let sb = Superblock::new(&fs.sb[..]);
            let bits = 8 * len.min(160);
            let first = ctx.choose(bits);
            if first / 16 == 64 {
                return Ok(());
            }
            raw[first / 8] ^= 1 << (first % 8);
            for second in first + 1..bits {
                if second / 16 == 64 {
                    continue;
                }
                raw[second / 8] ^= 1 << (second % 8);
                compare_inode(&raw, &Inode::new(&sb, InodeNumber(11), &raw))
                    .map_err(|e| format!("bits {first} and {second}: {e}"))?;
                raw[second / 8] ^= 1 << (second % 8);
                ctx.step();
            }
            ctx.nontrivial();
            ctx.obs(&(first, len, kind, extra));
            Ok(())
        });
        e.family("descriptor-bit-pairs", &|ctx: &Ctx| {
            let len = *ctx.pick(&[32, 64]);
            let mut raw = background(ctx.choose(4), len);
            let first = ctx.choose(8 * len);
            raw[first / 8] ^= 1 << (first % 8);
            for second in first + 1..8 * len {
                raw[second / 8] ^= 1 << (second % 8);
                compare_descriptor(&raw).map_err(|e| format!("bits {first} and {second}: {e}"))?;
                raw[second / 8] ^= 1 << (second % 8);
                ctx.step();
            }
            ctx.nontrivial();
            ctx.obs(&(first, raw.clone()));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C23

fn boundary_seconds() -> Vec<u32> {
    let mut values = vec![
        0, 1, 59, 86_399, 86_400, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe,
        0xffff_ffff, 0x386d_4380, 0x5e0b_e100, 0xcccc_cccc, 0x3333_3333,
    ];
    values.extend((0..32).map(|bit| 1 << bit));
    values.extend((0..32).map(|bit| !(1 << bit)));
    values.sort();
    values.dedup();
    values
}

fn boundary_nanos() -> Vec<u32> {
    let mut values = vec![
        0, 1, 999, 1_000, 999_999, 1_000_000, 999_999_998, 999_999_999, 1_000_000_000,
        1_000_000_001, 0x3fff_ffff, 0x3fff_fffe, 500_000_000, 123_456_789,
    ];
    values.extend((0..30).map(|bit| 1 << bit));
    values.sort();
    values.dedup();
    values
}

fn run_c23(e: &mut Explorer) {
    let seconds_values = boundary_seconds();
    let nanos_values = boundary_nanos();
    let (seconds_values, nanos_values) = (&seconds_values, &nanos_values);
    let sb = Geo::small(0, Csum::Uuid).superblock();
    let sb = &sb;

    // (name, offset of the seconds, offset of the extra field)
    const TIMES: [(&str, usize, usize); 4] = [
        ("access", 0x08, 0x8c),
        ("change", 0x0c, 0x84),
        ("modified", 0x10, 0x88),
        ("creation", 0x90, 0x94),
    ];
    let times = |inode: &Inode| {
        [
            inode.access_time(),
            inode.change_time(),
            inode.modified_time(),
            inode.creation_time(),
        ]
    };

    e.family("inode-times", &|ctx: &Ctx| {
        let which = ctx.choose(4);
        let (name, at, extra_at) = TIMES[which];
        let base = *ctx.pick(seconds_values);
        let epoch = ctx.choose(4) as u32;
        let nanos = *ctx.pick(nanos_values);
        let mut raw = vec![0; 256];
        put(&mut raw, 0x80, 2, 32);
        put(&mut raw, at, 4, base.into());
        put(&mut raw, extra_at, 4, (nanos << 2 | epoch).into());
        let superblock = Superblock::new(&sb[..]);
        let inode = Inode::new(&superblock, InodeNumber(12), &raw);
        let got = times(&inode);
        ctx.step();
        if base != 0 || epoch != 0 || nanos != 0 {
            ctx.nontrivial();
        }
        ctx.obs(&(which, base, epoch, nanos));
        ctx.note(|| format!("{name}: {base:#x}, epoch {epoch}, {nanos} ns: {}", got[which]));
        if nanos <= 999_999_999 {
            // From first principles: 2^32 seconds per epoch, from 1901.
            let moment_seconds = i128::from(base as i32) + i128::from(epoch) * (1 << 32);
            let want = moment_seconds * 1_000_000_000 + i128::from(nanos);
            let is = i128::from(got[which].timestamp()) * 1_000_000_000
                + i128::from(got[which].timestamp_subsec_nanos());
            same(name, is, want)?;
        }
        for (other, (other_name, ..)) in TIMES.iter().enumerate() {
            if other != which {
                same(other_name, got[other], DateTime::UNIX_EPOCH)?;
            }
        }
        Ok(())
    });

    // Extra fields that do not exist do not count.
    e.family("missing-extra-fields", &|ctx: &Ctx| {
        let which = ctx.choose(4);
        let (name, at, extra_at) = TIMES[which];
        let inode_size = *ctx.pick(&[128usize, 256]);
        let extra_size = if inode_size == 128 { 0 } else { 4 * ctx.choose(9) };
        let base = *ctx.pick(seconds_values);
        let epoch = ctx.choose(4) as u32;
        let mut raw = vec![0; 256];
        put(&mut raw, at, 4, base.into());
        put(&mut raw, extra_at, 4, (999_999_999 << 2 | epoch).into());
        put(&mut raw, 0x80, 2, extra_size as u64);
        raw.truncate(inode_size);
        let superblock = Superblock::new(&sb[..]);
        let inode = Inode::new(&superblock, InodeNumber(12), &raw);
        let end = if inode_size > 128 { 128 + extra_size } else { 128 };
        let base = if at + 4 <= end { base } else { 0 };
        let (epoch, nanos) = if extra_at + 4 <= end {
            (epoch, 999_999_999)
        } else {
            (0, 0)
        };
        ctx.step();
        ctx.nontrivial();
        ctx.obs(&(which, inode_size, extra_size, base, epoch));
        ctx.note(|| format!("{name} in an inode of {inode_size} with {extra_size} extra bytes"));
        same(
            name,
            Some(times(&inode)[which]),
            moment(i64::from(base as i32) + i64::from(epoch) * (1 << 32), nanos),
        )
    });

    e.family("delete-times", &|ctx: &Ctx| {
        let base = *ctx.pick(seconds_values);
        let mut raw = vec![0; 256];
        put(&mut raw, 0x14, 4, base.into());
        let superblock = Superblock::new(&sb[..]);
        let inode = Inode::new(&superblock, InodeNumber(12), &raw);
        ctx.step();
        ctx.nontrivial();
        ctx.obs(&base);
        same("delete time", Some(inode.delete_time()), moment(base.into(), 0))
    });

    // (offset of the low part, offset of the high part)
    const SB_TIMES: [(usize, usize); 6] = [
        (0x2c, 0x275),
        (0x30, 0x274),
        (0x40, 0x277),
        (0x108, 0x276),
        (0x198, 0x278),
        (0x1cc, 0x279),
    ];
    e.family("superblock-times", &|ctx: &Ctx| {
        let which = ctx.choose(6);
        let low = *ctx.pick(seconds_values);
        let high = match ctx.choose(13) {
            n @ 0..=3 => n as u8,
            n @ 4..=11 => 1 << (n - 4),
            _ => 0xff,
        };
        let mut raw = *sb;
        for (low_at, high_at) in SB_TIMES {
            put(&mut raw, low_at, 4, 0);
            put(&mut raw, high_at, 1, 0);
        }
        put(&mut raw, SB_TIMES[which].0, 4, low.into());
        put(&mut raw, SB_TIMES[which].1, 1, high.into());
        let superblock = Superblock::new(&raw[..]);
        let got = [
            superblock.mount_time(),
            Some(superblock.write_time()),
            Some(superblock.last_check_time()),
            superblock.creation_time(),
            superblock.first_error_time(),
            superblock.last_error_time(),
        ];
        ctx.step();
        ctx.nontrivial();
        ctx.obs(&(which, low, high));
        ctx.note(|| format!("time {which}: {high:#x}, {low:#x}"));
        for (i, got) in got.into_iter().enumerate() {
            let want = if i == which {
                u64::from(low) | u64::from(high) << 32
            } else {
                0
            };
            let is = got.map_or(Duration::ZERO, |t| {
                t.duration_since(SystemTime::UNIX_EPOCH).unwrap_or(Duration::MAX)
            });
            same("time", is, Duration::from_secs(want))?;
            // Times that were never set are not reported as moments.
            if want == 0 && ![1, 2].contains(&i) {
                same("unset time", got, None)?;
            }
        }
        Ok(())
    });

    if e.thorough {
        // Every valid second around each turn of an epoch, every nanosecond bit pair.
        e.family("epoch-turns", &|ctx: &Ctx| {
            let which = ctx.choose(4);
            let (name, at, extra_at) = TIMES[which];
            let epoch = ctx.choose(4) as u32;
            let around = *ctx.pick(&[0u32, 0x8000_0000]);
            let superblock = Superblock::new(&sb[..]);
            for delta in 0..0x10000u32 {
                let base = around.wrapping_add(delta).wrapping_sub(0x8000);
                for nanos in [0, 999_999_999] {
                    let mut raw = [0; 160];
                    put(&mut raw, 0x80, 2, 32);
                    put(&mut raw, at, 4, base.into());
                    put(&mut raw, extra_at, 4, (nanos << 2 | epoch).into());
                    let inode = Inode::new(&superblock, InodeNumber(12), raw);
                    same(
                        name,
                        Some(times(&inode)[which]),
                        moment(i64::from(base as i32) + i64::from(epoch) * (1 << 32), nanos),
                    )?;
                    ctx.step();
                }
            }
            ctx.nontrivial();
            ctx.obs(&(which, epoch, around));
            Ok(())
        });
        // Every 16-bit half of the seconds in every epoch.
        e.family("all-halves", &|ctx: &Ctx| {
            let which = ctx.choose(4);
            let (name, at, extra_at) = TIMES[which];
            let epoch = ctx.choose(4) as u32;
            let shift = 16 * ctx.choose(2) as u32;
            let superblock = Superblock::new(&sb[..]);
            for half in 0..0x10000u32 {
                let base = half << shift;
                let mut raw = [0; 160];
                put(&mut raw, 0x80, 2, 32);
                put(&mut raw, at, 4, base.into());
                put(&mut raw, extra_at, 4, (half << 2 | epoch).into());
                let inode = Inode::new(&superblock, InodeNumber(12), raw);
                same(
                    name,
                    Some(times(&inode)[which]),
                    moment(i64::from(base as i32) + i64::from(epoch) * (1 << 32), half),
                )?;
                ctx.step();
            }
            ctx.nontrivial();
            ctx.obs(&(which, epoch, shift));
            Ok(())
        });
    }
}
