//! C01: the placement of data and parity.

use crate::explore::{Ctx, Explorer};
use crate::mdref::*;
use crate::{Check, Level};
use sut::verif::md::{
    DeviceCount, DeviceNumber, MdAlgorithm, Raid5Algorithm, Raid6Algorithm, SectorCount,
    SectorNumber,
};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C01",
        level: Level::Model,
        rule: "One trace is a walk of the placement automaton of one (level, layout, number of devices, chunk size) through whole rotation periods, near the start and at the far end of the address space, or one decoded (level, layout) pair. Every state is compared with the real code for several sectors of each chunk. Non-trivial: at least one sector was compared.",
        assumptions: &[
            "The reference automaton and the transcription of the kernel's raid5_compute_sector, which are compared with each other in every state, both describe Linux MD.",
        ],
        note: "Exhaustive within the stated bounds, on the real code: every stripe phase of every layout for each device count, chunk size and region of the address space. Trusts two independently written reference placements, which are compared with each other in every state.",
        run,
    }]
}

fn algorithm(level: u32, layout: u32) -> MdAlgorithm {
    MdAlgorithm::from_level_and_layout(level, layout)
}

fn compute(
    algorithm: &MdAlgorithm,
    sector: u64,
    chunk: u32,
    n: u32,
) -> Option<(u64, u32, Option<u32>, u32)> {
    let (sector, chunk, n) = (SectorNumber(sector), SectorCount(chunk), DeviceCount(n));
    match algorithm {
        MdAlgorithm::Raid5(a) => a
            .compute_sector(sector, chunk, n)
            .map(|(s, p, d)| (s.0, p.0, None, d.0)),
        MdAlgorithm::Raid6(a) => a
            .compute_sector(sector, chunk, n)
            .map(|(s, DeviceNumber(p), q, d)| (s.0, p, Some(q.0), d.0)),
        MdAlgorithm::Unsupported { .. } => None,
    }
}

/// More sectors than this have no 64-bit byte offsets.
const MAX_SECTORS: u64 = 1 << 55;

/// Numbers of devices beyond those that are all tried.
const WIDE: [u32; 4] = [129, 256, 257, 384];

fn run(e: &mut Explorer) {
    let thorough = e.thorough;
    let max_n: usize = if thorough { 100 } else { 48 };
    let chunks: &[u32] = if thorough {
        &[1, 2, 7, 8, 16, 128, 1024, 2048, 1 << 16, (1 << 16) + 1, 1 << 20, 1 << 24, 1 << 31, 0x7fff_ffff, u32::MAX]
    } else {
        &[1, 3, 8, 1024, 1 << 16, 1 << 20, u32::MAX]
    };
    let combos: Vec<(u32, u32)> = RAID5_LAYOUTS
        .iter()
        .map(|l| (5, *l))
        .chain(RAID6_LAYOUTS.iter().map(|l| (6, *l)))
        .collect();

    e.family("rotation", |ctx: &Ctx| {
        let (level, layout) = *ctx.pick(&combos);
        let min_n = if level == 5 { 2 } else { 3 };
        let n = match ctx.range(min_n, max_n + WIDE.len()) {
            n if n <= max_n => n as u32,
            n => WIDE[n - max_n - 1],
        };
        let chunk = *ctx.pick(chunks);
        let origin = ctx.choose(6);
        let data_count = u64::from(n) - u64::from(level - 4);
        let period = period(level, layout, n);
        // The last stripe whose sectors all have 64-bit byte offsets.
        let last = MAX_SECTORS / u64::from(chunk) / data_count - 1;
        let steps = (2 * period + 3).min(last);
        let start = match origin {
            0 => 0,
            1 => 1 << 20,
            2 => (1 << 32) - period - 1,
            3 => 1 << 32,
            4 => (u64::from(u32::MAX) + 1) * 37 + 5,
            _ => last - steps,
        }
        .min(last - steps);
        ctx.note(|| {
            format!(
                "RAID {level} {}, {n} devices, chunks of {chunk} sectors, stripes {start} to {}",
                layout_name(level, layout),
                start + steps
            )
        });
        let algorithm = algorithm(level, layout);
        // Walk the automaton to the phase of the first stripe.
        let mut state = first_stripe(level, layout, n);
        for _ in 0..start % period {
            state = next_stripe(level, layout, n, &state);
        }
        for stripe in start..start + steps {
            let linux = linux_stripe(level, layout, n, stripe);
            assert!(
                linux == state,
                "harness: the reference models disagree on RAID {level} layout {layout} n={n} stripe {stripe}: {linux:?} {state:?}"
            );
            ctx.state(&(level, layout, n, &state));
            for (i, device) in state.data.iter().enumerate() {
                let first = (stripe * data_count + i as u64) * u64::from(chunk);
                for in_chunk in [0, 1, u64::from(chunk) / 2, u64::from(chunk) - 1] {
                    if in_chunk >= u64::from(chunk) {
                        continue;
                    }
                    let got = compute(&algorithm, first + in_chunk, chunk, n);
                    let want = (
                        stripe * u64::from(chunk) + in_chunk,
                        state.p,
                        state.q,
                        *device,
                    );
                    if got != Some(want) {
                        return Err(format!(
                            "RAID {level} {} with {n} devices and chunks of {chunk} sectors: sector {} is at (member sector, P, Q, data device) {want:?} but the code says {got:?}",
                            layout_name(level, layout),
                            first + in_chunk
                        ));
                    }
                    ctx.step();
                }
            }
            state = next_stripe(level, layout, n, &state);
        }
        ctx.nontrivial();
        Ok(())
    });

    // Every sector of small arrays, one by one.
    let small_n = if thorough { 12 } else { 8 };
    e.family("every-sector", |ctx: &Ctx| {
        let (level, layout) = *ctx.pick(&combos);
        let min_n = if level == 5 { 2 } else { 3 };
        let n = ctx.range(min_n, small_n) as u32;
        let chunk = ctx.range(1, 9) as u32;
        let algorithm = algorithm(level, layout);
        let data_count = n - (level - 4);
        ctx.note(|| {
            format!(
                "RAID {level} {}, {n} devices, chunks of {chunk} sectors, every sector of three periods",
                layout_name(level, layout)
            )
        });
        let stripes = 3 * period(level, layout, n);
        let mut sector = 0;
        let mut state = first_stripe(level, layout, n);
        for stripe in 0..stripes {
            ctx.state(&(level, layout, n, &state));
            for i in 0..data_count as usize {
                for in_chunk in 0..u64::from(chunk) {
                    let got = compute(&algorithm, sector, chunk, n);
                    let want = (
                        stripe * u64::from(chunk) + in_chunk,
                        state.p,
                        state.q,
                        state.data[i],
                    );
                    if got != Some(want) {
                        return Err(format!(
                            "RAID {level} {} with {n} devices and chunks of {chunk} sectors: sector {sector} is at {want:?} but the code says {got:?}",
                            layout_name(level, layout)
                        ));
                    }
                    ctx.step();
                    sector += 1;
                }
            }
            state = next_stripe(level, layout, n, &state);
        }
        ctx.nontrivial();
        Ok(())
    });

    // Which (level, layout) pairs mean what.
    e.family("decode", |ctx: &Ctx| {
        let level = *ctx.pick(&[
            0u32,
            1,
            2,
            3,
            4,
            5,
            6,
            7,
            10,
            256 + 5,
            256 + 6,
            0x10005,
            u32::MAX,
            u32::MAX - 3,
            u32::MAX - 4,
        ]);
        let layout = match ctx.choose(72) {
            i @ 0..=63 => i as u32,
            64 => 256,
            65 => 256 + 2,
            66 => 0x10002,
            67 => 0x8000_0002,
            68 => u32::MAX,
            69 => 0x1000_0000,
            70 => 0x100,
            _ => 0x102,
        };
        ctx.nontrivial();
        ctx.step();
        ctx.state(&("decode", level, layout));
        ctx.note(|| format!("level {level}, layout {layout}"));
        use Raid5Algorithm as R5;
        use Raid6Algorithm as R6;
        let want = match (level, layout) {
            (5, 0) => MdAlgorithm::Raid5(R5::LeftAsymmetric),
            (5, 1) => MdAlgorithm::Raid5(R5::RightAsymmetric),
            (5, 2) => MdAlgorithm::Raid5(R5::LeftSymmetric),
            (5, 3) => MdAlgorithm::Raid5(R5::RightSymmetric),
            (5, 4) => MdAlgorithm::Raid5(R5::Parity0),
            (5, 5) => MdAlgorithm::Raid5(R5::ParityN),
            (6, 0) => MdAlgorithm::Raid6(R6::LeftAsymmetric),
            (6, 1) => MdAlgorithm::Raid6(R6::RightAsymmetric),
            (6, 2) => MdAlgorithm::Raid6(R6::LeftSymmetric),
            (6, 3) => MdAlgorithm::Raid6(R6::RightSymmetric),
            (6, 4) => MdAlgorithm::Raid6(R6::Parity0),
            (6, 5) => MdAlgorithm::Raid6(R6::ParityN),
            (6, 8) => MdAlgorithm::Raid6(R6::Rotating0Restart),
            (6, 9) => MdAlgorithm::Raid6(R6::RotatingNRestart),
            (6, 10) => MdAlgorithm::Raid6(R6::RotatingNContinue),
            (6, 16) => MdAlgorithm::Raid6(R6::LeftAsymmetric6),
            (6, 17) => MdAlgorithm::Raid6(R6::RightAsymmetric6),
            (6, 18) => MdAlgorithm::Raid6(R6::LeftSymmetric6),
            (6, 19) => MdAlgorithm::Raid6(R6::RightSymmetric6),
            (6, 20) => MdAlgorithm::Raid6(R6::Parity06),
            _ => MdAlgorithm::Unsupported { level, layout },
        };
        let got = algorithm(level, layout);
        if got != want {
            return Err(format!(
                "level {level}, layout {layout} is {want:?} but the code says {got:?}"
            ));
        }
        let parity = got.parity_device_count();
        let want_parity = match want {
            MdAlgorithm::Raid5(_) => Some(DeviceCount(1)),
            MdAlgorithm::Raid6(_) => Some(DeviceCount(2)),
            MdAlgorithm::Unsupported { .. } => None,
        };
        if parity != want_parity {
            return Err(format!(
                "level {level}, layout {layout} has {want_parity:?} parity devices but the code says {parity:?}"
            ));
        }
        Ok(())
    });

    // Degenerate geometry is refused rather than computed wrongly.
    e.family("degenerate", |ctx: &Ctx| {
        let (level, layout) = *ctx.pick(&combos);
        let n = *ctx.pick(&[0u32, 1, 2, 3, 4, u32::MAX]);
        let chunk = *ctx.pick(&[0u32, 1, 8, u32::MAX]);
        let sector = *ctx.pick(&[0u64, 1, 7, 1 << 40, MAX_SECTORS - 1, u64::MAX - 1, u64::MAX]);
        ctx.nontrivial();
        ctx.step();
        ctx.note(|| format!("RAID {level} layout {layout} n={n} chunk={chunk} sector={sector}"));
        let got = compute(&algorithm(level, layout), sector, chunk, n);
        if n <= level - 4 || chunk == 0 {
            if let Some(got) = got {
                return Err(format!("RAID {level} layout {layout} with {n} devices and chunks of {chunk} sectors has no sector {sector}, but the code says {got:?}"));
            }
            return Ok(());
        }
        let data = u64::from(n - (level - 4));
        let (chunk_no, in_chunk) = (sector / u64::from(chunk), sector % u64::from(chunk));
        let (dd, stripe) = (chunk_no % data, chunk_no / data);
        let Some(got) = got else {
            if sector >= MAX_SECTORS {
                return Ok(());
            }
            return Err(format!("RAID {level} layout {layout} with {n} devices and chunks of {chunk} sectors: sector {sector} has no place"));
        };
        if n > 64 {
            // Only the stripe is cheap to predict for billions of devices.
            if got.0 != stripe * u64::from(chunk) + in_chunk {
                return Err(format!("sector {sector} is at member sector {} but the code says {got:?}", stripe * u64::from(chunk) + in_chunk));
            }
            return Ok(());
        }
        let want = linux_stripe(level, layout, n, stripe);
        let want = (
            stripe * u64::from(chunk) + in_chunk,
            want.p,
            want.q,
            want.data[dd as usize],
        );
        if got != want {
            return Err(format!("RAID {level} layout {layout} with {n} devices and chunks of {chunk} sectors: sector {sector} is at {want:?} but the code says {got:?}"));
        }
        Ok(())
    });
}
