//! C22: strings.

use crate::explore::{Ctx, Explorer};
use crate::{Check, Level};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use sut::verif::ext4::Ext4String;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C22",
            level: Level::Exploration,
            rule: "all short byte strings over an alphabet that covers every UTF-8 class, and every \
                   pair and triple of them, in several kinds of storage; non-trivial if a string \
                   is not plain ASCII or two strings share a prefix",
            assumptions: &["hashes need only agree for equal strings"],
            note: "Exhaustive over all byte strings of up to two bytes (thorough: three), over \
                   longer strings of representative bytes, and over all pairs of a representative set.",
            run: run_c22,
        },
    ]
}

fn same<T: PartialEq + Debug>(name: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{name} is {got:?}, should be {want:?}"))
    }
}

fn content<S: AsRef<[u8]>>(string: &Ext4String<S>) -> Vec<u8> {
    <&[u8]>::from(string).to_vec()
}

fn hash_of<T: Hash>(value: &T) -> u64 {
    let mut hasher = DefaultHasher::new();
    value.hash(&mut hasher);
    hasher.finish()
}

fn from_bytes(bytes: &[u8]) -> Ext4String<&[u8]> {
    Ext4String::from_null_terminated_bytes(bytes)
}

/// Everything about one string, held in borrowed and in owned bytes.
fn check_string(bytes: &[u8]) -> Result<(), String> {
    let end = bytes.iter().position(|b| *b == 0).unwrap_or(bytes.len());
    let want = &bytes[..end];
    let borrowed = from_bytes(bytes);
    let owned = borrowed.to_owned();
    let reread = from_bytes(want);
    for (which, got) in [("borrowed", content(&borrowed)), ("owned", content(&owned))] {
        if got != want {
            return Err(format!("the {which} string of {bytes:?} has the bytes {got:?}"));
        }
    }
    same("length", (borrowed.len(), owned.len()), (want.len(), want.len()))?;
    same(
        "emptiness",
        (borrowed.is_empty(), owned.is_empty()),
        (want.is_empty(), want.is_empty()),
    )?;
    if borrowed != reread {
        return Err(format!("{want:?} does not equal itself"));
    }
    same("order against itself", borrowed.cmp(&reread), std::cmp::Ordering::Equal)?;
    same("hash", hash_of(&borrowed), hash_of(&owned))?;
    same("hash", hash_of(&borrowed), hash_of(&reread))?;
    same(
        "conversion to text",
        String::try_from(&borrowed).ok(),
        String::from_utf8(want.to_vec()).ok(),
    )?;
    same(
        "conversion to text",
        String::try_from(&owned).ok(),
        String::from_utf8(want.to_vec()).ok(),
    )?;
    let lossy = String::from_utf8_lossy(want);
    same("lossy text", borrowed.to_str_lossy(), lossy.clone())?;
    same("display", borrowed.to_string(), lossy.to_string())?;
    same("display", owned.to_string(), lossy.to_string())?;
    if let Ok(text) = std::str::from_utf8(want) {
        let text_string = text.to_string();
        for (which, other) in [
            ("str", Ext4String::from(text)),
            ("String", Ext4String::from(&text_string)),
        ] {
            if other != borrowed || hash_of(&other) != hash_of(&borrowed) {
                return Err(format!("{want:?} does not equal the same {which}"));
            }
        }
    }
    Ok(())
}

fn check_pair(a: &[u8], b: &[u8]) -> Result<(), String> {
    let (x, y) = (from_bytes(a), from_bytes(b));
    let (xo, yo) = (x.to_owned(), y.to_owned());
    let eq = a == b;
    same("equality", (x == y, xo == yo), (eq, eq))?;
    same("inequality", (x != y, xo != yo), (!eq, !eq))?;
    let order = a.cmp(b);
    same("order", (x.cmp(&y), xo.cmp(&yo)), (order, order))?;
    same(
        "partial order",
        (x.partial_cmp(&y), xo.partial_cmp(&yo)),
        (Some(order), Some(order)),
    )?;
    same(
        "comparison operators",
        (x < y, x <= y, x > y, x >= y),
        (a < b, a <= b, a > b, a >= b),
    )?;
    if eq {
        same("hash", hash_of(&x), hash_of(&y))?;
        same("hash", hash_of(&xo), hash_of(&y))?;
    }
    Ok(())
}

/// Bytes of every class that UTF-8 and C strings distinguish.
const ALPHABET: [u8; 16] = [
    0x00, 0x01, b' ', b'/', b'A', b'a', 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc3, 0xe0, 0xed, 0xf0, 0xff,
];

/// Longer than any name in a directory.
const LONG: usize = 300;
const LENGTHS: [usize; 8] = [511, 512, 513, 1024, 4095, 4097, 65_535, 65_537];

/// Every place in a string; in very long ones only some.
fn place(ctx: &Ctx, len: usize) -> usize {
    if len <= LONG {
        return ctx.choose(len);
    }
    let mut places: Vec<usize> = (0..17).flat_map(|bit| [(1 << bit) - 1, 1 << bit, (1 << bit) + 1]).collect();
    places.extend([0, 300, 1000, 10_000, len - 2, len - 1]);
    places.retain(|at| *at < len);
    *ctx.pick(&places)
}

fn run_c22(e: &mut Explorer) {
    e.family("short-strings", &|ctx: &Ctx| {
        let len = ctx.choose(3);
        let mut bytes: Vec<u8> = (0..len).map(|_| ctx.choose(256) as u8).collect();
        // With something after the end, as in an on-disk field.
        if ctx.flag() {
            bytes.extend([0, b'x', 0xff]);
        }
        ctx.step();
        ctx.obs(&bytes);
        if bytes.iter().any(|b| !(0x20..0x7f).contains(b)) {
            ctx.nontrivial();
        }
        ctx.note(|| format!("{bytes:?}"));
        check_string(&bytes)
    });

    let longest = if e.thorough { 6 } else { 4 };
    e.family("representative-strings", &|ctx: &Ctx| {
        let len = ctx.choose(longest + 1);
        let bytes: Vec<u8> = (0..len).map(|_| *ctx.pick(&ALPHABET)).collect();
        ctx.step();
        ctx.obs(&bytes);
        if bytes.iter().any(|b| !(0x20..0x7f).contains(b)) {
            ctx.nontrivial();
        }
        check_string(&bytes)
    });

    // Every valid character, and the code points next to them that are not.
    e.family("characters", &|ctx: &Ctx| {
        let code = ctx.choose(0x110000 / 16) as u32 * 16;
        for code in code..code + 16 {
            let bytes = match char::from_u32(code) {
                Some(c) => c.to_string().into_bytes(),
                // A surrogate, encoded as if it were a character.
                None => vec![
                    0xe0 | (code >> 12) as u8,
                    0x80 | (code >> 6 & 0x3f) as u8,
                    0x80 | (code & 0x3f) as u8,
                ],
            };
            check_string(&bytes)?;
            ctx.step();
        }
        ctx.nontrivial();
        ctx.obs(&code);
        Ok(())
    });

    e.family("long-strings", &|ctx: &Ctx| {
        let len = ctx.choose(256);
        let filler = *ctx.pick(&[b'n', 0xc3, 0xff, 0x80]);
        let mut bytes = vec![filler; len];
        let at = match ctx.choose(3) {
            0 => None,
            1 => Some(0),
            _ => len.checked_sub(1),
        };
        if let Some(at) = at.filter(|at| *at < len) {
            bytes[at] = *ctx.pick(&[0, b'/', 0xbf]);
        }
        ctx.step();
        ctx.obs(&bytes);
        ctx.nontrivial();
        check_string(&bytes)
    });

    // Something at every place of a long string.
    e.family("places", &|ctx: &Ctx| {
        let len = match ctx.choose(LONG + LENGTHS.len()) {
            n @ ..LONG => n + 1,
            n => LENGTHS[n - LONG],
        };
        let at = place(ctx, len);
        let what: &[u8] = [
            &b"\0"[..], b"\x7f", b"\xff", b"\xc3", b"\xc3\xbf", b"\xe2\x82\xac", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"\xf0\x9f\x98",
            b"\xed\xa0\x80", b"\xef\xbf\xbd",
        ][ctx.choose(11)];
        let mut bytes: Vec<u8> = (0..len).map(|i| b'a' + (i % 23) as u8).collect();
        bytes.splice(at..(at + what.len()).min(len), what.iter().copied());
        ctx.step();
        ctx.obs(&(len, at, what));
        ctx.nontrivial();
        ctx.note(|| format!("{what:?} at {at} of {len} bytes"));
        check_string(&bytes)
    });

    // Long strings that differ at one place, or that end there.
    e.family("long-pairs", &|ctx: &Ctx| {
        let len = match ctx.choose(LONG + LENGTHS.len()) {
            n @ ..LONG => n + 1,
            n => LENGTHS[n - LONG],
        };
        let at = place(ctx, len);
        let filler = *ctx.pick(&[b'n', 0xff]);
        let a = vec![filler; len];
        let mut b = a.clone();
        match ctx.choose(4) {
            0 => b.truncate(at),
            1 => b[at] = b'm',
            2 => b[at] = 0x80,
            _ => {
                // And again, the other way around.
                b[at] = 0x80;
                b[len - 1] ^= 1;
            }
        }
        ctx.step();
        ctx.obs(&(len, at, filler, b.len(), b.get(at).copied()));
        ctx.nontrivial();
        ctx.note(|| format!("{a:?} and {b:?}"));
        check_pair(&a, &b)?;
        check_pair(&b, &a)?;
        check_pair(&a, &a.clone())
    });

    let pair_len = if e.thorough { 3 } else { 2 };
    e.family("pairs", &|ctx: &Ctx| {
        let one = || -> Vec<u8> {
            let len = ctx.choose(pair_len + 1);
            (0..len).map(|_| ALPHABET[1 + ctx.choose(15)]).collect()
        };
        let a = one();
        let b = one();
        ctx.step();
        ctx.obs(&(&a, &b));
        if !a.is_empty() && a.first() == b.first() {
            ctx.nontrivial();
        }
        ctx.note(|| format!("{a:?} and {b:?}"));
        check_pair(&a, &b)
    });

    e.family("sorting", &|ctx: &Ctx| {
        // Any three strings sort as their bytes do, in any order, and a set
        // of them has as many members as there are different ones.
        let pool: [&[u8]; 8] = [
            b"", b"a", b"ab", b"b", b"\xff", b"\xc3\xbf", b"a\xff", b"\xed\xa0\x80",
        ];
        let picked: Vec<&[u8]> = (0..4).map(|_| *ctx.pick(&pool)).collect();
        let mut strings: Vec<_> = picked.iter().map(|b| from_bytes(b)).collect();
        strings.sort();
        let mut want = picked.clone();
        want.sort();
        ctx.step();
        ctx.nontrivial();
        ctx.obs(&picked);
        same(
            "sorted strings",
            strings.iter().map(content).collect::<Vec<_>>(),
            want.iter().map(|b| b.to_vec()).collect(),
        )?;
        let hashed: std::collections::HashSet<_> = strings.iter().map(|s| s.to_owned()).collect();
        let ordered: std::collections::BTreeSet<_> = strings.iter().map(|s| s.to_owned()).collect();
        want.dedup();
        same("sizes of sets", (hashed.len(), ordered.len()), (want.len(), want.len()))
    });

    if e.thorough {
        e.family("three-bytes", &|ctx: &Ctx| {
            let first = ctx.choose(256) as u8;
            let second = ctx.choose(256) as u8;
            for third in 0..=255 {
                check_string(&[first, second, third])?;
                ctx.step();
            }
            ctx.nontrivial();
            ctx.obs(&(first, second));
            Ok(())
        });
    }
}

