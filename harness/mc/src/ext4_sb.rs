//! C10: which superblocks are accepted.

use crate::explore::{Ctx, Explorer};
use crate::ext4ref::{crc32c, feature, get, put, seal_superblock, Csum, Fs, Geo};
use crate::simdev::{Image, SimDev};
use crate::{Check, Level};
use sut::verif::ext4::{Ext4Fs, Superblock};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C10",
        level: Level::Exploration,
        rule: "superblocks written by an independent ext4 writer, changed in every way the family \
               enumerates, are parsed and mounted by the real code; non-trivial if the superblock \
               differs from an acceptable one",
        assumptions: &[
            "a superblock with checksum type 1 but without the metadata_csum feature, and a wrong \
             checksum, is not judged: Linux ignores that checksum, the program insists on it",
            "cluster sizes above 512 MiB that can still be represented, and flex groups of more \
             than 2^31 and fewer than 2^64 groups, are not judged",
        ],
        note: "Every superblock of the enumerated families is accepted or refused as Linux would: \
               all bit flips (and pairs of them) and byte changes of checksummed superblocks, all \
               magic numbers, block and cluster sizes, checksum types, features, truncations.",
        run: run_c10,
    }]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Expect {
    Accept,
    Refuse,
    Either,
}

/// Presents the superblock to the parser and to the filesystem.
fn judge(ctx: &Ctx, image: &Image, sb: &[u8; 1024], parse: Expect, open: Expect) -> Result<(), String> {
    let parsed = Superblock::read(&sb[..]).is_ok();
    ctx.step();
    if parse != Expect::Either && parsed != (parse == Expect::Accept) {
        return Err(format!(
            "the superblock was {} but should be {parse:?}",
            if parsed { "accepted" } else { "refused" }
        ));
    }
    let valid = Superblock::new(&sb[..]).valid();
    if valid != parsed {
        return Err(format!(
            "reading the superblock and validating it disagree: {parsed}, {valid}"
        ));
    }
    let mut image = image.clone();
    image.write(1024, sb);
    let opened = Ext4Fs::open(SimDev::new(image, 512)).is_ok();
    ctx.step();
    if open != Expect::Either && opened != (open == Expect::Accept) {
        return Err(format!(
            "the filesystem was {} but should be {open:?}",
            if opened { "opened" } else { "refused" }
        ));
    }
    if parse != Expect::Accept || open != Expect::Accept {
        ctx.nontrivial();
    }
    ctx.obs(&(parsed, opened));
    ctx.obs(&sb[..]);
    Ok(())
}

fn both(ctx: &Ctx, fs: &Fs, sb: &[u8; 1024], expect: Expect) -> Result<(), String> {
    judge(ctx, &fs.image, sb, expect, expect)
}

fn bases() -> Vec<Fs> {
    vec![
        Fs::new(Geo::small(0, Csum::Uuid)),
        Fs::new(Geo::small(2, Csum::Seed(0x1234_5678))),
        Fs::new(Geo {
            log_cluster: 4,
            ..Geo::small(2, Csum::Uuid)
        }),
    ]
}

fn rechecked(sb: &mut [u8; 1024]) {
    // Whatever the features say.
    let crc = crc32c(!0, &sb[..1020]);
    put(sb, 1020, 4, crc.into());
}

fn run_c10(e: &mut Explorer) {
    let bases = bases();
    let bases = &bases;

    e.family("bit-flips", &|ctx: &Ctx| {
        let fs = ctx.pick(bases);
        let mut sb = fs.sb;
        let byte = ctx.choose(1025);
        if byte == 1024 {
            return both(ctx, fs, &sb, Expect::Accept);
        }
        sb[byte] ^= 1 << ctx.choose(8);
        ctx.note(|| format!("byte {byte:#x} is {:#x}", sb[byte]));
        both(ctx, fs, &sb, Expect::Refuse)
    });

    e.family("magic", &|ctx: &Ctx| {
        let fs = &bases[0];
        let mut sb = fs.sb;
        let magic = ctx.choose(0x10000) as u64;
        put(&mut sb, 0x38, 2, magic);
        seal_superblock(&mut sb);
        both(
            ctx,
            fs,
            &sb,
            if magic == 0xef53 {
                Expect::Accept
            } else {
                Expect::Refuse
            },
        )
    });

    e.family("block-size", &|ctx: &Ctx| {
        let log = match ctx.choose(80 + 26) {
            n @ 0..=79 => n as u64,
            n @ 80..=104 => 1 << (n - 80 + 7),
            _ => 0xffff_ffff,
        };
        let csum = *ctx.pick(&[Csum::None, Csum::Uuid, Csum::Seed(7)]);
        let fs = Fs::new(Geo::small(log.min(6) as u32, csum));
        let mut sb = fs.sb;
        put(&mut sb, 0x18, 4, log);
        put(&mut sb, 0x1c, 4, log);
        seal_superblock(&mut sb);
        ctx.note(|| format!("log block size {log}"));
        both(
            ctx,
            &fs,
            &sb,
            if log <= 6 { Expect::Accept } else { Expect::Refuse },
        )
    });

    e.family("checksum-type", &|ctx: &Ctx| {
        let with_csum = ctx.flag();
        let fs = Fs::new(Geo::small(
            0,
            if with_csum { Csum::Uuid } else { Csum::None },
        ));
        let mut sb = fs.sb;
        let kind = ctx.choose(256) as u64;
        put(&mut sb, 0x175, 1, kind);
        rechecked(&mut sb);
        let right = ctx.flag();
        if !right {
            let wrong = get(&sb, 1020, 4) ^ *ctx.pick(&[1, 0x8000_0000, 0xffff_ffff, get(&sb, 1020, 4)]);
            put(&mut sb, 1020, 4, wrong);
        }
        ctx.note(|| format!("checksum type {kind}, feature {with_csum}, checksum right {right}"));
        let expect = match (kind, with_csum, right) {
            (1, true, true) => Expect::Accept,
            (1, true, false) => Expect::Refuse,
            (1, false, true) => Expect::Accept,
            (1, false, false) => Expect::Either,
            (0, with_csum, _) => {
                if with_csum {
                    Expect::Refuse
                } else {
                    Expect::Accept
                }
            }
            // Linux ignores the type without the feature.
            (_, true, _) => Expect::Refuse,
            (_, false, _) => Expect::Either,
        };
        both(ctx, &fs, &sb, expect)
    });

    e.family("compatible-features", &|ctx: &Ctx| {
        let fs = Fs::new(Geo::small(
            ctx.choose(2) as u32,
            *ctx.pick(&[Csum::None, Csum::Uuid]),
        ));
        let mut sb = fs.sb;
        let field = *ctx.pick(&[0x5c, 0x64]);
        let bit = 1u32 << ctx.choose(32);
        let value = get(&sb, field, 4) as u32;
        if field == 0x64 && bit == feature::RO_METADATA_CSUM {
            return Ok(());
        }
        put(&mut sb, field, 4, (value ^ bit).into());
        seal_superblock(&mut sb);
        ctx.note(|| format!("feature {bit:#x} of {field:#x} toggled"));
        both(ctx, &fs, &sb, Expect::Accept)
    });

    e.family("incompatible-features", &|ctx: &Ctx| {
        let fs = Fs::new(Geo::small(
            ctx.choose(2) as u32,
            *ctx.pick(&[Csum::None, Csum::Uuid]),
        ));
        let mut sb = fs.sb;
        let bit = 1u32 << ctx.choose(32);
        let value = get(&sb, 0x60, 4) as u32;
        put(&mut sb, 0x60, 4, (value ^ bit).into());
        seal_superblock(&mut sb);
        ctx.note(|| format!("incompatible feature {bit:#x} toggled"));
        // Linux does not define these; the program must not go on.
        let undefined = 0xfffc_0820;
        let open = if bit & undefined != 0 || bit == feature::INCOMPAT_EXTENTS {
            Expect::Refuse
        } else if bit & (feature::INCOMPAT_FILETYPE | feature::INCOMPAT_FLEX_BG | 4 | 0x100 | 0x400) != 0 {
            Expect::Accept
        } else {
            Expect::Either
        };
        judge(ctx, &fs.image, &sb, Expect::Accept, open)
    });

    e.family("clusters", &|ctx: &Ctx| {
        let log_bs = ctx.choose(7) as u32;
        let fs = Fs::new(Geo::small(log_bs, *ctx.pick(&[Csum::None, Csum::Uuid])));
        let mut sb = fs.sb;
        let log_cluster = match ctx.choose(70) {
            n @ 0..=66 => n as u64,
            67 => 0x7fff_ffff,
            68 => 0x8000_0000,
            _ => 0xffff_ffff,
        };
        let bigalloc = ctx.flag();
        let same_per_group = ctx.flag();
        put(&mut sb, 0x1c, 4, log_cluster);
        if bigalloc {
            let ro = get(&sb, 0x64, 4) | u64::from(feature::RO_BIGALLOC);
            put(&mut sb, 0x64, 4, ro);
        }
        if !same_per_group {
            let half = get(&sb, 0x20, 4) >> 1;
            put(&mut sb, 0x24, 4, half);
        }
        seal_superblock(&mut sb);
        ctx.note(|| {
            format!("log cluster size {log_cluster}, bigalloc {bigalloc}, as many clusters as blocks {same_per_group}")
        });
        let expect = if log_cluster >= 54 {
            Expect::Refuse
        } else if !bigalloc {
            if log_cluster == u64::from(log_bs) && same_per_group {
                Expect::Accept
            } else {
                Expect::Refuse
            }
        } else if (u64::from(log_bs)..=19).contains(&log_cluster) {
            Expect::Accept
        } else {
            Expect::Either
        };
        both(ctx, &fs, &sb, expect)
    });

    e.family("error-policy", &|ctx: &Ctx| {
        let fs = &bases[1];
        let mut sb = fs.sb;
        let policy = ctx.choose(0x10000) as u64;
        put(&mut sb, 0x3c, 2, policy);
        seal_superblock(&mut sb);
        both(
            ctx,
            fs,
            &sb,
            if (1..=3).contains(&policy) {
                Expect::Accept
            } else {
                Expect::Refuse
            },
        )
    });

    e.family("flex-groups", &|ctx: &Ctx| {
        let fs = &bases[1];
        let mut sb = fs.sb;
        let log = ctx.choose(256) as u64;
        put(&mut sb, 0x174, 1, log);
        seal_superblock(&mut sb);
        both(
            ctx,
            fs,
            &sb,
            match log {
                0..=31 => Expect::Accept,
                32..=63 => Expect::Either,
                _ => Expect::Refuse,
            },
        )
    });

    // No field that does not matter makes a superblock unacceptable.
    e.family("unrelated-fields", &|ctx: &Ctx| {
        let fs = Fs::new(Geo::small(1, *ctx.pick(&[Csum::None, Csum::Uuid])));
        let mut sb = fs.sb;
        let (offset, width) = *ctx.pick(&[
            (0x08, 4), (0x0c, 4), (0x10, 4), (0x2c, 4), (0x30, 4), (0x34, 2), (0x36, 2), (0x3a, 2),
            (0x3e, 2), (0x40, 4), (0x44, 4), (0x50, 2), (0x52, 2), (0x5a, 2), (0x68, 8), (0x70, 8),
            (0x78, 8), (0x80, 8), (0x88, 8), (0xc0, 8), (0xc8, 4), (0xcc, 1), (0xcd, 1), (0xce, 2),
            (0xd0, 8), (0xd8, 8), (0xe0, 4), (0xe4, 4), (0xe8, 4), (0xec, 8), (0xf4, 8), (0xfc, 1),
            (0xfd, 1), (0x100, 4), (0x104, 4), (0x108, 4), (0x10c, 8), (0x148, 8), (0x154, 4),
            (0x158, 4), (0x15c, 2), (0x15e, 2), (0x160, 4), (0x164, 2), (0x166, 2), (0x168, 8),
            (0x170, 4), (0x176, 1), (0x177, 1), (0x178, 8), (0x180, 4), (0x184, 4), (0x188, 8),
            (0x190, 4), (0x194, 4), (0x198, 4), (0x19c, 4), (0x1a0, 8), (0x1a8, 8), (0x1c8, 4),
            (0x1cc, 4), (0x1d0, 4), (0x1d4, 4), (0x1d8, 8), (0x1e0, 8), (0x200, 8), (0x238, 8),
            (0x240, 4), (0x244, 4), (0x248, 4), (0x24c, 8), (0x254, 4), (0x258, 8), (0x260, 8),
            (0x268, 4), (0x26c, 4), (0x270, 4), (0x274, 4), (0x278, 4), (0x27c, 4), (0x280, 4),
            (0x284, 8), (0x3f4, 8),
        ]);
        let value = *ctx.pick(&[0, 1, 0x80, 0x7fff_ffff_ffff_ffff, 0xffff_ffff_ffff_ffff, 0x8000_0000_8000_8080]);
        put(&mut sb, offset, width, value);
        seal_superblock(&mut sb);
        ctx.note(|| format!("{width} bytes at {offset:#x} are {value:#x}"));
        both(ctx, &fs, &sb, Expect::Accept)
    });

    e.family("truncated", &|ctx: &Ctx| {
        let fs = &bases[0];
        // Superblock and group descriptors end at 2112.
        let size = ctx.choose(2113);
        let image = Image::from_bytes(&fs.image.bytes(0, size));
        let opened = Ext4Fs::open(SimDev::new(image, *ctx.pick(&[512, 1024])));
        ctx.step();
        ctx.nontrivial();
        ctx.obs(&(size, opened.is_ok()));
        match opened {
            Ok(_) if size < 2112 => Err(format!("a device of {size} bytes was opened")),
            Err(e) if size == 2112 => Err(format!("a filesystem was refused: {e}")),
            _ => Ok(()),
        }
    });

    e.family("two-places", &|ctx: &Ctx| {
        // The copy in another group, or shifted, is not taken for the superblock.
        let fs = &bases[0];
        let mut image = fs.image.clone();
        let at = *ctx.pick(&[0, 512, 1023, 1025, 1536, 2048, 4096]);
        image.write(1024, &[0; 1024]);
        image.write(at, &fs.sb);
        ctx.nontrivial();
        ctx.step();
        ctx.obs(&at);
        match Ext4Fs::open(SimDev::new(image, 512)) {
            Ok(_) => Err(format!("a superblock at {at} was accepted")),
            Err(_) => Ok(()),
        }
    });

    if e.thorough {
        e.family("byte-changes", &|ctx: &Ctx| {
            let fs = ctx.pick(bases);
            let mut sb = fs.sb;
            let byte = ctx.choose(1024);
            let mask = ctx.range(1, 255) as u8;
            sb[byte] ^= mask;
            both(ctx, fs, &sb, Expect::Refuse)
        });

        e.family("two-bit-flips", &|ctx: &Ctx| {
            let fs = &bases[0];
            let mut sb = fs.sb;
            let first = ctx.choose(8192);
            // With two flips the feature can be turned off along with the type.
            let excluded = |bit: usize| bit / 8 == 0x175 || bit == 0x65 * 8 + 2;
            if excluded(first) {
                return Ok(());
            }
            sb[first / 8] ^= 1 << (first % 8);
            for second in first + 1..8192 {
                if excluded(second) {
                    continue;
                }
                sb[second / 8] ^= 1 << (second % 8);
                if Superblock::new(&sb[..]).valid() {
                    return Err(format!("bits {first} and {second} can be flipped"));
                }
                sb[second / 8] ^= 1 << (second % 8);
                ctx.step();
            }
            ctx.nontrivial();
            ctx.obs(&first);
            Ok(())
        });
    }
}
