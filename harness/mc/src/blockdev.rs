//! C08 and C09: block devices, and byte streams over them.

use crate::explore::{Ctx, Explorer};
use crate::interpose::{memory_file, Native, Session};
use crate::md_array;
use crate::simdev::{Failure, Fault, Image, SimDev};
use crate::{Check, Level};
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use sut::verif::{
    BlockDevice, BlockDeviceReader, BlockNumber, BlockSize, FileBlockDevice, InMemoryBlockDevice,
    NativeBlockDevice,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C08",
            level: Level::Model,
            rule: "One execution is one sequence of operations (reads, seeks, clones, reads of blocks) on byte streams over one device, each compared with a flat file with a position per handle. Non-trivial: at least one byte was read or a position changed.",
            assumptions: &["Positions beyond 2^63-1 may be refused or accepted."],
            note: "Every sequence of operations up to depth 4 (5), with arguments at all block and device boundaries, for several block sizes and counts; depth 3 (4) with up to two I/O faults; depth 3 over files, arrays and nested streams. The model is the set of (handle positions); every transition is executed on the real code.",
            run: c08,
        },
        Check {
            id: "C09",
            level: Level::Model,
            rule: "One execution is one sequence of operations on one kind of block device, each compared with the device's contents. Non-trivial: at least one block or byte was compared.",
            assumptions: &["After reading a block by number, the position of sequential reads is not specified until the next seek; handles of one file share it."],
            note: "Every sequence of operations up to depth 4 (files and native devices: 3, thorough 4) on files, in-memory devices, native devices (with the ioctls answered by a stand-in) and views stacked on them, with every fault of the underlying system calls up to two (three) per sequence; sizes with partial last blocks and beyond 2^32 sectors. The model is the set of (position known, handles); every transition is executed on the real code.",
            run: c09,
        },
    ]
}

fn contents(len: u64) -> Vec<u8> {
    // No two blocks are equal, nor are neighbouring bytes.
    (0..len)
        .map(|i| {
            let x = (i + 1).wrapping_mul(0x9e3779b97f4a7c15);
            (x >> 56) as u8 ^ (x >> 24) as u8
        })
        .collect()
}

/// Signed sum; `None` if negative or beyond 64 bits.
fn sum(a: u64, b: i64) -> Option<u64> {
    u64::try_from(i128::from(a) + i128::from(b)).ok()
}

/// Runs `depth` operations on streams over `device`, which holds `data`.
fn stream<D: BlockDevice>(
    ctx: &Ctx,
    device: D,
    data: &[u8],
    bs: u64,
    depth: usize,
    faulted: &dyn Fn() -> usize,
) -> Result<(), String> {
    rounds(ctx, device, data, bs, depth, 1, faulted)
}

/// The same sequence of operations again and again, with two streams from the
/// start if it is executed more than once.
fn rounds<D: BlockDevice>(
    ctx: &Ctx,
    device: D,
    data: &[u8],
    bs: u64,
    depth: usize,
    rounds: usize,
    faulted: &dyn Fn() -> usize,
) -> Result<(), String> {
    let total = data.len() as u64;
    let (t, b) = (total as i64, bs as i64);
    let mut streams = vec![(BlockDeviceReader::new(device), 0u64)];
    let mut log: Vec<String> = Vec::new();
    let mut reads = vec![0, 1, bs, bs + 1, total + 1];
    reads.dedup();
    let mut starts = vec![0, 1, bs / 2 + 1, bs - 1, bs, bs + 1, total.saturating_sub(1), total, total + 1, i64::MAX as u64, u64::MAX];
    starts.sort();
    starts.dedup();
    let mut ends = vec![0, -1, -b, -b - 1, -t, -t - 1, 1, i64::MIN, i64::MAX];
    ends.sort();
    ends.dedup();
    let mut currents = vec![0, 1, -1, b, -b, -t, i64::MAX, i64::MIN];
    currents.sort();
    currents.dedup();
    let fail = |log: &[String], what: String| {
        Err(format!(
            "{} blocks of {bs} bytes, after {}: {what}",
            total / bs.max(1),
            log.join(", ")
        ))
    };
    if rounds > 1 {
        let clone = streams[0].0.try_clone().map_err(|e| format!("cloning failed: {e}"))?;
        streams.push((clone, 0));
    }
    for step in 0..depth * rounds {
        if rounds > 1 {
            ctx.periodic(step % depth);
        }
        let h = if streams.len() > 1 { ctx.choose(streams.len()) } else { 0 };
        let kinds = reads.len() + starts.len() + ends.len() + currents.len() + 5;
        let mut op = ctx.choose(kinds);
        let alone = streams.len() < 2;
        let (stream, position) = &mut streams[h];
        ctx.step();
        let faults = faulted();
        if op < reads.len() {
            let len = reads[op] as usize;
            log.push(format!("read {len} of handle {h}"));
            let mut buf = vec![0xee; len];
            let left = total.saturating_sub(*position);
            match stream.read(&mut buf) {
                Ok(n) => {
                    if n > len || n as u64 > left {
                        return fail(&log, format!("{n} bytes were read at {position}"));
                    }
                    if n == 0 && len > 0 && left > 0 {
                        return fail(&log, format!("the end was reported at {position}"));
                    }
                    if n > 0 {
                        if buf[..n] != data[*position as usize..][..n] {
                            return fail(&log, format!("wrong bytes were read at {position}"));
                        }
                        ctx.nontrivial();
                    }
                    *position += n as u64;
                }
                Err(e) if faulted() == faults => {
                    return fail(&log, format!("reading at {position} failed: {e}"))
                }
                Err(_) => {}
            }
            ctx.obs(&(h, *position, buf));
            ctx.state(&streams.iter().map(|s| s.1).collect::<Vec<_>>());
            continue;
        }
        op -= reads.len();
        if op < starts.len() + ends.len() + currents.len() {
            let (seek, target) = if op < starts.len() {
                (SeekFrom::Start(starts[op]), Some(starts[op]))
            } else if op < starts.len() + ends.len() {
                let d = ends[op - starts.len()];
                (SeekFrom::End(d), sum(total, d))
            } else {
                let d = currents[op - starts.len() - ends.len()];
                (SeekFrom::Current(d), sum(*position, d))
            };
            log.push(format!("seek {seek:?} of handle {h}"));
            match (stream.seek(seek), target) {
                (Ok(got), Some(want)) if got == want => {
                    if want != *position {
                        ctx.nontrivial();
                    }
                    *position = want;
                }
                (Ok(got), want) => {
                    return fail(&log, format!("the position is {got}, not {want:?}"))
                }
                (Err(_), None) => {}
                (Err(_), Some(want)) if want > i64::MAX as u64 => {}
                (Err(_), Some(_)) if faulted() != faults => {}
                (Err(e), Some(_)) => return fail(&log, format!("seeking failed: {e}")),
            }
            ctx.obs(&(h, *position, op));
            ctx.state(&streams.iter().map(|s| s.1).collect::<Vec<_>>());
            continue;
        }
        op -= starts.len() + ends.len() + currents.len();
        match op {
            0 | 1 => {
                let count = total / bs;
                let n = if op == 0 { 0 } else { count.saturating_sub(1) };
                log.push(format!("read block {n} of handle {h}"));
                let mut buf = vec![0xee; bs as usize];
                match stream.read_block(BlockNumber(n), &mut buf) {
                    Ok(len) => {
                        if n >= count || len as u64 != bs || buf != data[(n * bs) as usize..][..bs as usize] {
                            return fail(&log, "the block is wrong".into());
                        }
                    }
                    Err(e) if n < count && faulted() == faults => {
                        return fail(&log, format!("reading the block failed: {e}"))
                    }
                    Err(_) => {}
                }
            }
            2 => {
                log.push(format!("size of handle {h}"));
                match (stream.block_size(), stream.block_count()) {
                    (Ok(size), Ok(count)) => {
                        if u64::from(size.0) != bs || count.0 != total / bs {
                            return fail(&log, format!("{count:?} of {size:?}"));
                        }
                    }
                    _ if faulted() != faults => {}
                    _ => return fail(&log, "the size is not known".into()),
                }
            }
            3 => {
                log.push(format!("position of handle {h}"));
                match stream.stream_position() {
                    Ok(got) if got == *position => {}
                    Ok(got) => return fail(&log, format!("the position is {got}, not {position}")),
                    Err(_) if faulted() != faults || *position > i64::MAX as u64 => {}
                    Err(e) => return fail(&log, format!("the position is not known: {e}")),
                }
            }
            _ => {
                if alone {
                    log.push(format!("clone of handle {h}"));
                    match stream.try_clone() {
                        Ok(clone) => {
                            let position = *position;
                            streams.push((clone, position));
                        }
                        Err(_) if faulted() != faults => {}
                        Err(e) => return fail(&log, format!("cloning failed: {e}")),
                    }
                }
            }
        }
        ctx.obs(&(h, op));
        ctx.state(&streams.iter().map(|s| s.1).collect::<Vec<_>>());
    }
    ctx.aperiodic();
    // Whatever happened, the rest of every stream can be read.
    for (h, (stream, position)) in streams.iter_mut().enumerate() {
        let faults = faulted();
        if *position > i64::MAX as u64 {
            continue;
        }
        let mut rest = Vec::new();
        match stream.read_to_end(&mut rest) {
            Ok(_) => {
                let from = (*position).min(total) as usize;
                if rest != data[from..] {
                    return fail(&log, format!("the rest of handle {h} from {position} is wrong"));
                }
            }
            Err(_) if faulted() != faults => {}
            Err(e) => return fail(&log, format!("the rest of handle {h} cannot be read: {e}")),
        }
    }
    ctx.note(|| log.join(", "));
    Ok(())
}

fn c08(e: &mut Explorer) {
    let thorough = e.thorough;

    for (bs, count, depth) in [
        (4u64, 3u64, if thorough { 5 } else { 4 }),
        (3, 1, if thorough { 5 } else { 3 }),
        (1, 4, if thorough { 5 } else { 3 }),
        (512, 2, if thorough { 4 } else { 3 }),
        (4, 0, if thorough { 5 } else { 3 }),
        (7, 5, if thorough { 4 } else { 3 }),
    ] {
        e.family(&format!("sequences-{bs}x{count}"), |ctx| {
            let data = contents(bs * count);
            ctx.obs(&(bs, count));
            let dev = SimDev::new(Image::from_bytes(&data), bs as u32);
            stream(ctx, dev, &data, bs, depth, &|| 0)
        });
    }

    e.family("block-sizes", |ctx| {
        // Short sequences with blocks of any size.
        let bs = match ctx.choose(17 + 6) {
            n if n < 17 => 1u64 << n,
            n => [3, 5, 520, 1000, 4097, 65_537][n - 17],
        };
        let count = *ctx.pick(&[1u64, 2, 3]);
        let data = contents(bs * count);
        ctx.obs(&(bs, count));
        let depth = if bs <= if thorough { 1024 } else { 16 } { 3 } else { 2 };
        match ctx.choose(if thorough { 3 } else { 2 }) {
            0 => {
                let dev = SimDev::new(Image::from_bytes(&data), bs as u32);
                stream(ctx, dev, &data, bs, depth, &|| 0)
            }
            1 => {
                let dev = InMemoryBlockDevice::new(data.clone(), BlockSize(bs as u32));
                stream(ctx, dev, &data, bs, 2, &|| 0)
            }
            _ => {
                let file = memory_file(bs * count, &[(0, data.clone())]);
                let dev = FileBlockDevice::from_file(file, BlockSize(bs as u32));
                stream(ctx, dev, &data, bs, 2, &|| 0)
            }
        }
    });

    let faults = [Fault::Error, Fault::Interrupted, Fault::Eof];
    let (bound, depth) = if thorough { (2, 4) } else { (2, 3) };
    let faulty = |ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose(ctx));
        let (bs, count) = *ctx.pick(&[(4u64, 3u64), (512, 1)]);
        let data = contents(bs * count);
        ctx.obs(&(bs, count));
        let dev = SimDev::new(Image::from_bytes(&data), bs as u32);
        dev.inject(ctx, if kinds { &faults[..1] } else { &faults }, true);
        let depth = if kinds { 2 } else { depth };
        let shared = dev.shared.clone();
        let injected = || shared.faults_injected.borrow().len();
        let r = stream(ctx, dev, &data, bs, depth, &injected);
        ctx.obs(&format!("{:?}", shared.faults_injected.borrow()));
        ctx.note(|| format!("faults: {:?}", shared.faults_injected.borrow()));
        r
    };
    e.bounded("faults", bound, |ctx| faulty(ctx, false));
    e.bounded("every error", 1, |ctx| faulty(ctx, true));

    e.family("periodic", |ctx| {
        // Short sequences again and again: what is counted or kept for later
        // overflows, if it ever does.
        let (bs, count, times) = *ctx.pick(&[(4u64, 40u64, 300), (512, 5, 70)]);
        let data = contents(bs * count);
        ctx.obs(&(bs, count));
        let depth = if thorough && times < 100 { 3 } else { 2 };
        match ctx.choose(2) {
            0 => {
                let dev = SimDev::new(Image::from_bytes(&data), bs as u32);
                rounds(ctx, dev, &data, bs, depth, times, &|| 0)
            }
            _ => {
                let dev = InMemoryBlockDevice::new(data.clone(), BlockSize(bs as u32));
                rounds(ctx, dev, &data, bs, depth, times, &|| 0)
            }
        }
    });

    let depth = if thorough { 4 } else { 3 };
    e.family("file", |ctx| {
        // Handles of one file share its position.
        let (bs, count) = *ctx.pick(&[(4u64, 3u64), (512, 2)]);
        let data = contents(bs * count);
        ctx.obs(&(bs, count, "file"));
        let file = memory_file(bs * count, &[(0, data.clone())]);
        let dev = FileBlockDevice::from_file(file, BlockSize(bs as u32));
        stream(ctx, dev, &data, bs, depth, &|| 0)
    });

    e.family("in-memory", |ctx| {
        let (bs, count) = *ctx.pick(&[(4u64, 3u64), (512, 2)]);
        let data = contents(bs * count);
        ctx.obs(&(bs, count, "memory"));
        let dev = InMemoryBlockDevice::new(data.clone(), BlockSize(bs as u32));
        stream(ctx, dev, &data, bs, depth, &|| 0)
    });

    e.family("nested", |ctx| {
        let (bs, count) = (4u64, 3u64);
        let data = contents(bs * count);
        ctx.obs(&"nested");
        let dev = SimDev::new(Image::from_bytes(&data), bs as u32).sharing_cursor();
        stream(ctx, BlockDeviceReader::new(dev), &data, bs, depth, &|| 0)
    });

    e.family("array", |ctx| {
        let spec = md_array::spec(crate::mdref::Flavour::V1_2, 6, 2, 4, 1, 1, 16, 1);
        let data: Vec<u8> =
            (0..spec.array_sectors()).flat_map(|s| crate::mdref::data_sector(spec.seed, s)).collect();
        let images = md_array::cached(&spec);
        let array = md_array::open(&images, 512, &[0, 1, 2, 3]);
        ctx.obs(&"array");
        stream(ctx, array, &data, 512, 3.min(depth), &|| 0)
    });

    e.family("huge", |ctx| {
        // Devices near the limits of 32 and 64 bits.
        let bs = *ctx.pick(&[512u64, 4096, 65536]);
        let count = *ctx.pick(&[1u64 << 23, 1 << 32, (1 << 47) - 1, i64::MAX as u64 / bs]);
        let Some(total) = bs.checked_mul(count).filter(|t| *t <= i64::MAX as u64) else {
            return Ok(());
        };
        let mut image = Image::new(total);
        let places: Vec<u64> = [0, (1 << 31) - 3, (1 << 32) - 3, (1 << 41) - 3, total - 6]
            .into_iter()
            .filter(|p| p + 6 <= total)
            .collect();
        for (i, p) in places.iter().enumerate() {
            image.write(*p, &[i as u8 + 1; 6]);
        }
        let mut stream = BlockDeviceReader::new(SimDev::new(image.clone(), bs as u32));
        let mut position = 0u64;
        for _ in 0..2 {
            let place = *ctx.pick(&places);
            let seek = match ctx.choose(3) {
                0 => SeekFrom::Start(place),
                1 => SeekFrom::End(-((total - place) as i64)),
                _ => SeekFrom::Current((i128::from(place) - i128::from(position)) as i64),
            };
            let got = stream.seek(seek).map_err(|e| format!("{seek:?} of {total} bytes failed: {e}"))?;
            ctx.step();
            let mut buf = [0; 6];
            if got != place {
                return Err(format!("{seek:?} of {total} bytes in blocks of {bs}: position {got}"));
            }
            stream
                .read_exact(&mut buf)
                .map_err(|e| format!("reading at {place} of {total} bytes failed: {e}"))?;
            if buf != *image.bytes(place, 6) {
                return Err(format!("wrong bytes at {place} of {total}, blocks of {bs}"));
            }
            position = place + 6;
            ctx.obs(&(bs, count, place, format!("{seek:?}")));
            ctx.state(&position);
            ctx.nontrivial();
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------

/// Operations on a device that also has a position. `data` is all it holds,
/// perhaps with a partial block at the end.
fn device<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    device: D,
    data: &[u8],
    bs: u64,
    depth: usize,
    what: &str,
    faulted: &dyn Fn() -> bool,
) -> Result<(), String> {
    device_rounds(ctx, device, data, bs, (depth, 1), what, faulted)
}

fn device_rounds<D: BlockDevice + Read + Seek>(
    ctx: &Ctx,
    device: D,
    data: &[u8],
    bs: u64,
    (depth, rounds): (usize, usize),
    what: &str,
    faulted: &dyn Fn() -> bool,
) -> Result<(), String> {
    let total = data.len() as u64;
    let count = total / bs;
    // The position of each handle, if it is specified.
    let mut handles: Vec<(D, Option<u64>)> = vec![(device, None)];
    let mut log: Vec<String> = Vec::new();
    let fail = |log: &[String], e: String| {
        Err(format!("{what} of {total} bytes in blocks of {bs}, after {}: {e}", log.join(", ")))
    };
    let mut numbers = vec![0, 1, count.saturating_sub(1), count, count + 1, u64::MAX / bs, u64::MAX];
    numbers.sort();
    numbers.dedup();
    if rounds > 1 {
        let clone = handles[0].0.try_clone().map_err(|e| format!("cloning failed: {e}"))?;
        handles.push((clone, None));
    }
    for step in 0..depth * rounds {
        if rounds > 1 {
            ctx.periodic(step % depth);
        }
        let h = if handles.len() > 1 { ctx.choose(2) } else { 0 };
        ctx.step();
        let kind = ctx.choose(5);
        let several = handles.len() > 1;
        match kind {
            0 => {
                let n = *ctx.pick(&numbers);
                let len = match ctx.choose(3) {
                    0 => bs,
                    1 => bs - 1,
                    _ => bs + 3,
                };
                log.push(format!("read block {n} into {len} bytes by handle {h}"));
                let mut buf = vec![0xee; len as usize];
                let got = handles[h].0.read_block(BlockNumber(n), &mut buf);
                for handle in &mut handles {
                    handle.1 = None;
                }
                match got {
                    Ok(got) => {
                        if n >= count {
                            return fail(&log, format!("{got} bytes of a block that does not exist"));
                        }
                        if len < bs {
                            return fail(&log, format!("{got} bytes of a block that does not fit"));
                        }
                        if got as u64 != bs {
                            return fail(&log, format!("{got} bytes"));
                        }
                        if buf[..bs as usize] != data[(n * bs) as usize..][..bs as usize] {
                            return fail(&log, "wrong bytes".into());
                        }
                        ctx.nontrivial();
                    }
                    Err(e) if n < count && len >= bs && !faulted() => {
                        return fail(&log, format!("error {e}"))
                    }
                    Err(_) => {}
                }
                ctx.obs(&(h, n, len));
            }
            1 => {
                log.push(format!("size by handle {h}"));
                match (handles[h].0.block_size(), handles[h].0.block_count()) {
                    (Ok(size), Ok(c)) => {
                        if u64::from(size.0) != bs || c.0 != count {
                            return fail(&log, format!("{c:?} of {size:?}"));
                        }
                    }
                    (a, b) if !faulted() => {
                        return fail(&log, format!("unknown size ({a:?}, {b:?})"))
                    }
                    _ => {}
                }
                ctx.obs(&h);
            }
            2 => {
                let (seek, to) = match ctx.choose(4) {
                    0 => (SeekFrom::Start(0), 0),
                    1 => (SeekFrom::Start(bs.min(total)), bs.min(total)),
                    2 => (SeekFrom::End(0), total),
                    _ => (SeekFrom::End(-(1.min(total) as i64)), total - 1.min(total)),
                };
                log.push(format!("seek {seek:?} by handle {h}"));
                let got = handles[h].0.seek(seek);
                if several {
                    handles[1 - h].1 = None;
                }
                match got {
                    Ok(got) if got == to => handles[h].1 = Some(to),
                    Ok(got) => return fail(&log, format!("position {got}")),
                    Err(e) if !faulted() => return fail(&log, format!("error {e}")),
                    Err(_) => handles[h].1 = None,
                }
                ctx.obs(&(h, to));
            }
            3 => {
                let Some(position) = handles[h].1 else { continue };
                let len = (*ctx.pick(&[1, bs])).min(total - position);
                log.push(format!("read {len} bytes by handle {h}"));
                let mut buf = vec![0xee; len as usize];
                let got = handles[h].0.read_exact(&mut buf);
                if several {
                    handles[1 - h].1 = None;
                }
                match got {
                    Ok(()) if buf == data[position as usize..][..len as usize] => {
                        handles[h].1 = Some(position + len);
                        if len > 0 {
                            ctx.nontrivial();
                        }
                    }
                    Ok(()) => return fail(&log, format!("wrong bytes at {position}")),
                    Err(e) if !faulted() => return fail(&log, format!("error {e}")),
                    Err(_) => handles[h].1 = None,
                }
                ctx.obs(&(h, position, len));
            }
            _ => {
                if several {
                    continue;
                }
                log.push(format!("clone of handle {h}"));
                match handles[h].0.try_clone() {
                    Ok(clone) => {
                        let position = handles[h].1;
                        handles.push((clone, position));
                    }
                    Err(e) if !faulted() => return fail(&log, format!("error {e}")),
                    Err(_) => {}
                }
                ctx.obs(&h);
            }
        }
        ctx.state(&(what, bs, total, handles.iter().map(|h| h.1).collect::<Vec<_>>()));
    }
    ctx.aperiodic();
    ctx.note(|| format!("{what} of {total} bytes in blocks of {bs}: {}", log.join(", ")));
    Ok(())
}

fn c09(e: &mut Explorer) {
    let thorough = e.thorough;
    let depth = if thorough { 5 } else { 4 };
    let sizes = [0u64, 1, 7, 8, 9, 23, 24, 26];

    e.family("in-memory", |ctx| {
        let total = *ctx.pick(&sizes);
        let bs = *ctx.pick(&[8u64, 1]);
        let data = contents(total);
        let dev = InMemoryBlockDevice::new(data.clone(), BlockSize(bs as u32));
        ctx.obs(&("memory", total, bs));
        device(ctx, dev, &data, bs, depth.min(4), "in-memory device", &|| false)
    });

    e.family("file", |ctx| {
        let total = *ctx.pick(&sizes);
        let bs = *ctx.pick(&[8u64, 1]);
        let data = contents(total);
        let file = memory_file(total, &[(0, data.clone())]);
        let dev = FileBlockDevice::from_file(file, BlockSize(bs as u32));
        ctx.obs(&("file", total, bs));
        device(ctx, dev, &data, bs, depth - 1, "file", &|| false)
    });

    e.family("native", |ctx| {
        let total = *ctx.pick(&sizes);
        let bs = *ctx.pick(&[8u64, 1]);
        let data = contents(total);
        let file = memory_file(total, &[(0, data.clone())]);
        let session = Session::new();
        // The size of logical blocks differs, to notice if it is used.
        session.native(
            file.as_raw_fd(),
            Native { size: total, physical_block: bs as u32, logical_block: 2 },
        );
        let dev = NativeBlockDevice::from_file(file);
        ctx.obs(&("native", total, bs));
        device(ctx, dev, &data, bs, depth - 1, "native device", &|| false)
    });

    e.family("block-sizes", |ctx| {
        // Blocks of any size, perhaps with a partial one at the end.
        let bs = match ctx.choose(17 + 4) {
            n if n < 17 => 1u64 << n,
            n => [3, 520, 4097, 65_537][n - 17],
        };
        let partial = *ctx.pick(&[0, 1, 2, bs / 2, 511, 512, 513, 4096, 65_535, bs - 1]);
        let total = bs * *ctx.pick(&[0, 1, 2]) + partial;
        if partial >= bs {
            return Ok(());
        }
        let data = contents(total);
        let which = ctx.choose(3);
        ctx.obs(&(bs, total, which));
        let depth = if thorough && bs <= 4096 { 3 } else { 2 };
        match which {
            0 => {
                let dev = InMemoryBlockDevice::new(data.clone(), BlockSize(bs as u32));
                device(ctx, dev, &data, bs, depth, "in-memory device", &|| false)
            }
            1 => {
                let file = memory_file(total, &[(0, data.clone())]);
                let dev = FileBlockDevice::from_file(file, BlockSize(bs as u32));
                device(ctx, dev, &data, bs, depth, "file", &|| false)
            }
            _ => {
                let file = memory_file(total, &[(0, data.clone())]);
                let session = Session::new();
                session.native(
                    file.as_raw_fd(),
                    Native { size: total, physical_block: bs as u32, logical_block: 512 },
                );
                device(ctx, NativeBlockDevice::from_file(file), &data, bs, depth, "native device", &|| false)
            }
        }
    });

    e.family("periodic", |ctx| {
        let (bs, total) = *ctx.pick(&[(4u64, 162u64), (512, 2560)]);
        let data = contents(total);
        let which = ctx.choose(4);
        ctx.obs(&("periodic", bs, which));
        let turns = (if thorough && which == 0 { 3 } else { 2 }, 100);
        match which {
            0 => {
                let dev = InMemoryBlockDevice::new(data.clone(), BlockSize(bs as u32));
                device_rounds(ctx, dev, &data, bs, turns, "in-memory device", &|| false)
            }
            1 => {
                let dev = FileBlockDevice::from_file(memory_file(total, &[(0, data.clone())]), BlockSize(bs as u32));
                device_rounds(ctx, dev, &data, bs, turns, "file", &|| false)
            }
            2 => {
                let file = memory_file(total, &[(0, data.clone())]);
                let session = Session::new();
                session.native(
                    file.as_raw_fd(),
                    Native { size: total, physical_block: bs as u32, logical_block: 2 },
                );
                device_rounds(ctx, NativeBlockDevice::from_file(file), &data, bs, turns, "native device", &|| false)
            }
            _ => {
                let data = &data[..(total / bs * bs) as usize];
                let sim = SimDev::new(Image::from_bytes(data), bs as u32);
                device_rounds(ctx, BlockDeviceReader::new(sim), data, bs, turns, "stream", &|| false)
            }
        }
    });

    e.family("stacked", |ctx| {
        let data = contents(24);
        let which = ctx.choose(4);
        ctx.obs(&("stacked", which));
        let sim = |bs| SimDev::new(Image::from_bytes(&data), bs);
        let depth = depth.min(4);
        match which {
            0 => device(ctx, BlockDeviceReader::new(sim(8)), &data, 8, depth, "stream", &|| false),
            1 => device(
                ctx,
                BlockDeviceReader::new(BlockDeviceReader::new(sim(8))),
                &data,
                8,
                depth,
                "stream of a stream",
                &|| false,
            ),
            2 => {
                let file = memory_file(24, &[(0, data.clone())]);
                let dev = FileBlockDevice::from_file(file, BlockSize(8));
                device(ctx, BlockDeviceReader::new(dev), &data, 8, depth, "stream of a file", &|| false)
            }
            _ => {
                let data = contents(16384);
                let member = md_array::open_device(SimDev::new(Image::from_bytes(&data), 4096), 0);
                device(
                    ctx,
                    BlockDeviceReader::new(member),
                    &data,
                    4096,
                    depth,
                    "stream of a member",
                    &|| false,
                )
            }
        }
    });

    // Faults of the system calls.
    let (bound, fault_depth) = if thorough { (3, 3) } else { (2, 3) };
    let soft = [Fault::OneByte, Fault::Half, Fault::Interrupted];
    let all = [Fault::OneByte, Fault::Half, Fault::Interrupted, Fault::Error, Fault::Eof];
    let faulty = |ctx: &Ctx, kinds: bool| {
        let _failure = kinds.then(|| Failure::choose_errno(ctx));
        let fault_depth = if kinds { 2 } else { fault_depth };
        let native = ctx.flag();
        let hard = kinds || ctx.flag();
        let total = *ctx.pick(&[24u64, 19]);
        let bs = 8u64;
        let data = contents(total);
        let file = memory_file(total, &[(0, data.clone())]);
        let session = Session::new();
        if native {
            session.native(
                file.as_raw_fd(),
                Native { size: total, physical_block: bs as u32, logical_block: 2 },
            );
        }
        let reads = if kinds {
            &all[3..4]
        } else if hard {
            &all[..]
        } else {
            &soft[..]
        };
        session.inject(ctx, reads, hard);
        let faulted =
            || session.injected().iter().any(|(_, f)| matches!(f, Fault::Error | Fault::Eof));
        let r = if native {
            device(ctx, NativeBlockDevice::from_file(file), &data, bs, fault_depth, "native device", &faulted)
        } else {
            let dev = FileBlockDevice::from_file(file, BlockSize(bs as u32));
            device(ctx, dev, &data, bs, fault_depth, "file", &faulted)
        };
        let injected = session.injected();
        ctx.obs(&(native, total, format!("{injected:?}")));
        ctx.note(|| format!("faults: {injected:?}"));
        r.map_err(|e| format!("{e} (faults: {injected:?})"))
    };
    e.bounded("faults", bound, |ctx| faulty(ctx, false));
    e.bounded("every error", 1, |ctx| faulty(ctx, true));

    e.family("geometry", |ctx| {
        // Large devices, all common block sizes, sizes that are no multiple.
        let bs = *ctx.pick(&[1u64, 512, 520, 1024, 4096, 65536, 1 << 20]);
        let base = *ctx.pick(&[0u64, 4096, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 44]);
        let delta = *ctx.pick(&[0i64, -512, 512, -1, 1, 100]);
        let Some(total) = base.checked_add_signed(delta) else { return Ok(()) };
        let kind = ctx.choose(2);
        let count = total / bs;
        let mut places: Vec<u64> = [
            0,
            1,
            count / 2,
            count.saturating_sub(2),
            count.saturating_sub(1),
            ((1u64 << 31) / bs).saturating_sub(1),
            (1 << 31) / bs,
            ((1u64 << 32) / bs).saturating_sub(1),
            (1 << 32) / bs,
            1 << 31,
            1 << 32,
        ]
        .into_iter()
        .filter(|n| *n < count)
        .collect();
        places.sort();
        places.dedup();
        let small = bs.min(4096) as usize;
        let parts: Vec<(u64, Vec<u8>)> = places
            .iter()
            .flat_map(|n| {
                let first = contents(n % 9973 + small as u64)[(n % 9973) as usize..].to_vec();
                let mut last = first.clone();
                last.reverse();
                if bs as usize == small {
                    vec![(n * bs, first)]
                } else {
                    vec![(n * bs, first), ((n + 1) * bs - small as u64, last)]
                }
            })
            .collect();
        let file = memory_file(total, &parts);
        let session = Session::new();
        if kind == 1 {
            session.native(
                file.as_raw_fd(),
                Native { size: total, physical_block: bs as u32, logical_block: 512 },
            );
        }
        ctx.obs(&(bs, total, kind));
        ctx.note(|| format!("{total} bytes in blocks of {bs}, native: {kind}"));
        if count > 0 {
            ctx.nontrivial();
        }
        fn check<D: BlockDevice + Read + Seek>(
            ctx: &Ctx,
            mut dev: D,
            bs: u64,
            total: u64,
            places: &[u64],
            parts: &[(u64, Vec<u8>)],
        ) -> Result<(), String> {
            let count = total / bs;
            let what = format!("{total} bytes in blocks of {bs}");
            let got = dev.block_count().map_err(|e| format!("{what}: {e}"))?.0;
            if got != count {
                return Err(format!("{what}: {got} blocks"));
            }
            let mut buf = vec![0xee; bs as usize];
            for n in places {
                ctx.step();
                ctx.state(&(bs, total, n));
                let got = dev
                    .read_block(BlockNumber(*n), &mut buf)
                    .map_err(|e| format!("{what}, block {n}: {e}"))?;
                if got as u64 != bs {
                    return Err(format!("{what}, block {n}: {got} bytes"));
                }
                for (at, bytes) in parts.iter().filter(|(at, _)| at / bs == *n) {
                    if buf[(at % bs) as usize..][..bytes.len()] != bytes[..] {
                        return Err(format!("{what}, block {n}: wrong bytes"));
                    }
                }
            }
            for n in [count, count + 1, 2 * count + 3, u64::MAX / bs, u64::MAX / 2, u64::MAX] {
                ctx.step();
                if dev.read_block(BlockNumber(n), &mut buf).is_ok() {
                    return Err(format!("{what}: block {n} does not exist but was read"));
                }
            }
            Ok(())
        }
        if kind == 1 {
            check(ctx, NativeBlockDevice::from_file(file), bs, total, &places, &parts)
        } else {
            let dev = FileBlockDevice::from_file(file, BlockSize(bs as u32));
            check(ctx, dev, bs, total, &places, &parts)
        }
    });

    e.family("paths", |ctx| {
        // Opening by name: files, and things that are no block devices.
        let dir = crate::tempdir();
        let path = dir.join("image");
        let total = *ctx.pick(&[0u64, 10, 4096]);
        std::fs::write(&path, contents(total)).expect("harness: cannot write");
        let result = match ctx.choose(3) {
            0 => (|| {
                let dev = FileBlockDevice::open_path(&path, BlockSize(5))
                    .map_err(|e| format!("cannot open a file: {e}"))?;
                device(ctx, dev, &contents(total), 5, 2, "file", &|| false)
            })(),
            1 => match FileBlockDevice::open_path(dir.join("none"), BlockSize(5)) {
                Ok(_) => Err("a file that does not exist was opened".into()),
                Err(_) => Ok(()),
            },
            _ => match NativeBlockDevice::open_path(&path) {
                // A plain file has no size as a block device.
                Ok(dev) => match (dev.block_count(), dev.block_size()) {
                    (Err(_), Err(_)) => Ok(()),
                    (count, size) => Err(format!("a plain file has {count:?} blocks of {size:?}")),
                },
                Err(_) => Ok(()),
            },
        };
        ctx.obs(&total);
        ctx.nontrivial();
        let _ = std::fs::remove_dir_all(&dir);
        result
    });
}
