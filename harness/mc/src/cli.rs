//! C19: the command, as an executable.

use crate::explore::{Ctx, Explorer};
use crate::md_array::spec;
use crate::mdref::{superblock_offset, Flavour};
use crate::simdev::{Image, SimDev};
use crate::{tempdir, Check, Level};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{FileExt, MetadataExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use sut::verif::md::{MdArray, MdDevice};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        level: Level::Exploration,
        rule: "one execution runs the md-recover executable (built from /repo) with a list of \
               devices, in a directory whose files are compared afterwards; its output is compared \
               with the diagnosis or the failures that the list calls for; non-trivial if the list \
               is not empty",
        assumptions: &[
            "regular files stand in for block devices: a preloaded library answers their ioctls, \
             gives them the type of block devices, and refuses to open them for writing",
        ],
        note: "Every list of up to three (thorough: four) arguments over all enumerated kinds of \
               devices and failures, repetitions included, in every order; lists of up to 300 \
               arguments of chosen shapes; relative names.",
        run,
    }]
}

/// What an argument stands for.
enum Kind {
    /// A device with these contents, at least to its size, block size.
    Device(Image, u32),
    /// Fails to open with this error. The token is a part of its name that no
    /// quoting changes.
    Fails(i32),
}

struct Arg {
    name: OsString,
    token: &'static str,
    kind: Kind,
}

fn args() -> Vec<Arg> {
    let spec6 = spec(Flavour::V1_2, 6, 2, 4, 8, 64, 24, 1);
    let members = spec6.build();
    let spec0 = spec(Flavour::V0Little, 5, 2, 3, 8, 64, 0, 2);
    let old = spec0.build();
    // Another array, with a name of its own and a chunk size of its own.
    let mut other = spec(Flavour::V1_2, 6, 8, 5, 16, 64, 24, 3).build().swap_remove(1);
    let at = superblock_offset(Flavour::V1_2, other.size);
    other.xor(at + 0x10, 0xff);
    other.write(at + 0x20, b"host:other\0");
    // The superblock at the end of a large device.
    let spec1 = spec(Flavour::V1_0, 6, 2, 4, 8, 64, 24, 1);
    let size = 3u64 << 40;
    let mut big = Image::new(size);
    big.write(superblock_offset(Flavour::V1_0, size), &spec1.superblock(2));
    let mut blank = Image::new(65536);
    blank.write(0, &[1; 512]);
    let arg = |name: &[u8], token: &'static str, kind: Kind| Arg {
        name: OsString::from_vec(name.to_vec()),
        token,
        kind,
    };
    vec![
        arg(b"dev-sda1", "dev-sda1", Kind::Device(members[0].clone(), 512)),
        arg(b"dev-4k-sdb1", "dev-4k-sdb1", Kind::Device(members[1].clone(), 4096)),
        arg(b"dev-other", "dev-other", Kind::Device(other, 512)),
        arg(b"dev-old", "dev-old", Kind::Device(old[1].clone(), 512)),
        arg(b"dev-blank", "dev-blank", Kind::Device(blank, 512)),
        arg(b"dev-small", "dev-small", Kind::Device(Image::new(8192), 512)),
        arg(b"dev-big", "dev-big", Kind::Device(big, 512)),
        arg(b"dev-odd \"name'\nwith\xffbytes", "dev-odd", Kind::Device(members[3].clone(), 512)),
        arg(b"link-sdc1", "link-sdc1", Kind::Device(members[2].clone(), 512)),
        arg(b"missing", "missing", Kind::Fails(libc::ENOENT)),
        arg(b"plainfile", "plainfile", Kind::Fails(libc::ENOTTY)),
        arg(b"folder", "folder", Kind::Fails(libc::ENOTTY)),
        arg(b"dev-denied", "dev-denied", Kind::Fails(libc::EACCES)),
        arg(b"dev-gone", "dev-gone", Kind::Fails(libc::ENXIO)),
        arg(b"dev-nosize", "dev-nosize", Kind::Fails(libc::EIO)),
        arg(b"dev-noblock", "dev-noblock", Kind::Fails(libc::EIO)),
        arg(b"plainfile2/below", "plainfile2", Kind::Fails(libc::ENOTDIR)),
        arg(b"badlink \xff\n", "badlink", Kind::Fails(libc::ENOENT)),
        arg(b"dev-empty", "dev-empty", Kind::Device(Image::new(0), 512)),
        arg(b"-dev-dash", "-dev-dash", Kind::Device(members[3].clone(), 512)),
    ]
}

/// Many devices that are missing, each with a name of its own.
fn many_missing() -> Vec<Arg> {
    (0..MANY)
        .map(|i| {
            let token = format!("missing-{i:03}");
            Arg {
                name: OsString::from(&token),
                token: token.leak(),
                kind: Kind::Fails(libc::ENOENT),
            }
        })
        .collect()
}

/// Devices that are missing and whose names could be mistaken for each other,
/// or for several.
fn alike_missing() -> Vec<Arg> {
    let names: [&[u8]; 22] = [
        b"lost",
        b"lost ",
        b" lost",
        b"lost\n",
        b"lost\\n",
        b"lost\r",
        b"lost\t",
        b"lost\x1b[0m",
        b"lost\xfe",
        b"lost\xff",
        b"lost\\xFF",
        "lost\u{fffd}".as_bytes(),
        "lost\u{202e}".as_bytes(),
        "lost\u{200b}".as_bytes(),
        b"'lost'",
        b"\"lost\"",
        b"$'lost\\n'",
        b"lost: No such file or directory (os error 2)",
        b"lost: No such file or directory (os error 2)\nlost ",
        b"lost: No such file or directory (os error 2)\n'lost '",
        b"lost: No such file or directory (os error 2)\n\"lost\"",
        b"LOST",
    ];
    names
        .into_iter()
        .map(|name| Arg {
            name: OsString::from_vec(name.to_vec()),
            token: "",
            kind: Kind::Fails(libc::ENOENT),
        })
        .collect()
}

/// How the devices are named.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Naming {
    Absolute,
    Relative,
    Dotted,
}

impl Naming {
    fn path(self, dir: &Path, name: &OsString) -> PathBuf {
        match self {
            Naming::Absolute => dir.join(name),
            Naming::Relative => PathBuf::from(name),
            Naming::Dotted => Path::new(".//folder/..").join(name),
        }
    }
}

const MANY: usize = 300;

/// The scratch directory of one thread.
struct Scratch {
    dir: PathBuf,
    output: PathBuf,
    state: Vec<(PathBuf, u64, u64, i64, i64, u32)>,
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        let _ = std::fs::remove_dir_all(&self.output);
    }
}

fn put_image(path: &Path, image: &Image) -> std::io::Result<()> {
    let file = std::fs::File::create(path)?;
    file.set_len(image.size)?;
    for (offset, bytes) in image.parts() {
        let len = (bytes.len() as u64).min(image.size - offset) as usize;
        file.write_all_at(&bytes[..len], offset)?;
    }
    Ok(())
}

fn state(dir: &Path) -> Vec<(PathBuf, u64, u64, i64, i64, u32)> {
    let mut out = Vec::new();
    let mut dirs = vec![dir.to_path_buf()];
    while let Some(dir) = dirs.pop() {
        for entry in std::fs::read_dir(dir).expect("harness: scratch directory").flatten() {
            let meta = entry.path().symlink_metadata().expect("harness: scratch file");
            if meta.is_dir() {
                dirs.push(entry.path());
            }
            out.push((entry.path(), meta.ino(), meta.size(), meta.mtime(), meta.mtime_nsec(), meta.mode()));
        }
    }
    out.sort();
    out
}

impl Scratch {
    fn new(args: &[Arg]) -> Self {
        let dir = tempdir();
        let output = tempdir();
        let make = || -> std::io::Result<()> {
            for arg in args {
                let path = dir.join(&arg.name);
                match (&arg.kind, arg.token) {
                    (Kind::Device(image, _), "link-sdc1") => {
                        put_image(&dir.join("dev-sdc1"), image)?;
                        std::os::unix::fs::symlink("dev-sdc1", path)?;
                    }
                    (Kind::Device(image, _), _) => put_image(&path, image)?,
                    (_, "missing") => {}
                    (_, "folder") => std::fs::create_dir(path)?,
                    (_, "plainfile2") => std::fs::write(path.parent().unwrap(), b"text")?,
                    (_, "badlink") => std::os::unix::fs::symlink("nowhere", path)?,
                    _ => std::fs::write(path, vec![7; 65536])?,
                }
            }
            Ok(())
        };
        make().expect("harness: cannot fill the scratch directory");
        let state = state(&dir);
        Self { dir, output, state }
    }
}

thread_local! {
    static SCRATCH: std::cell::RefCell<Option<Scratch>> = const { std::cell::RefCell::new(None) };
}

/// A pretty-printed value as a tree by its indentation, in an order that does
/// not depend on that of hashed collections, without the numbers that count
/// devices.
fn canonical(text: &str) -> String {
    struct Node {
        // Lines with what is indented below them; a line that starts with a
        // closing bracket belongs to the line before.
        parts: Vec<(String, Vec<Node>)>,
    }
    fn parse<'a>(lines: &mut std::iter::Peekable<impl Iterator<Item = &'a str>>, indent: usize) -> Vec<Node> {
        let mut nodes: Vec<Node> = Vec::new();
        while let Some(line) = lines.peek() {
            let own = line.len() - line.trim_start().len();
            if own < indent {
                break;
            }
            let text = line.trim().to_string();
            lines.next();
            let below = parse(lines, own + 1);
            if text.starts_with([')', ']', '}']) {
                if let Some(last) = nodes.last_mut() {
                    last.parts.push((text, below));
                    continue;
                }
            }
            nodes.push(Node {
                parts: vec![(text, below)],
            });
        }
        nodes
    }
    fn render(nodes: &[Node]) -> String {
        let mut all: Vec<String> = nodes
            .iter()
            .map(|node| {
                node.parts
                    .iter()
                    .map(|(text, below)| format!("{text}\n{}", render(below)))
                    .collect()
            })
            .collect();
        all.sort();
        all.concat()
    }
    let mut lines = text
        .lines()
        .filter(|line| !line.trim().is_empty() && !line.trim().starts_with("internal_index:"))
        .peekable();
    render(&parse(&mut lines, 0))
}

/// What each device tells, read from its raw bytes.
#[derive(Clone, PartialEq)]
struct Facts {
    uuid: Vec<u8>,
    name: Option<Vec<u8>>,
    chunk: u32,
    disks: u32,
    events: u64,
    slot: u32,
}

fn facts(image: &Image) -> Option<Facts> {
    let size = image.size;
    if size < 12288 {
        return None;
    }
    let bytes = |at: u64, len: usize| {
        let mut bytes = vec![0; len];
        image.read(at, &mut bytes);
        bytes
    };
    let n32 = |at: u64| u32::from_le_bytes(bytes(at, 4).try_into().unwrap());
    let n64 = |at: u64| u64::from(n32(at)) | u64::from(n32(at + 4)) << 32;
    for at in [Flavour::V1_2, Flavour::V1_1, Flavour::V1_0].map(|f| superblock_offset(f, size)) {
        if n32(at) == 0xa92b4efc && n32(at + 4) == 1 {
            let name = bytes(at + 32, 32);
            let end = name.iter().position(|b| *b == 0).unwrap_or(32);
            return Some(Facts {
                uuid: bytes(at + 16, 16),
                name: Some(name[..end].to_vec()),
                chunk: n32(at + 88),
                disks: n32(at + 92),
                events: n64(at + 200),
                slot: n32(at + 160),
            });
        }
    }
    if size < 65536 {
        return None;
    }
    let at = superblock_offset(Flavour::V0Little, size);
    (n32(at) == 0xa92b4efc).then(|| Facts {
        uuid: [bytes(at + 20, 4), bytes(at + 52, 12)].concat(),
        name: None,
        chunk: n32(at + 4 * 65) / 512,
        disks: n32(at + 40),
        events: n64(at + 4 * 39),
        slot: n32(at + 4 * 992),
    })
}

/// Whether each problem that is printed names the devices it should. Only
/// sections with names as expected are judged; what else they say is compared
/// with the diagnosis of the library.
fn names(stdout: &str, list: &[&Arg]) -> Result<(), String> {
    let mut sections: Vec<(&str, Vec<&str>)> = Vec::new();
    for line in stdout.lines() {
        let text = line.trim_start();
        if line.len() - text.len() == 4 && text.starts_with(|c: char| c.is_ascii_lowercase()) {
            sections.push((text.split(':').next().unwrap(), vec![line]));
        } else if let Some((_, lines)) = sections.last_mut() {
            lines.push(line);
        }
    }
    let devices: Vec<(&str, u64, Option<Facts>)> = list
        .iter()
        .map(|arg| {
            let Kind::Device(image, _) = &arg.kind else { unreachable!() };
            (arg.token, image.size, facts(image))
        })
        .collect();
    let with = || devices.iter().filter_map(|(token, _, facts)| Some((*token, facts.as_ref()?)));
    // All that have a value if there are several, or (the other way round) those
    // that have the same one.
    fn group<'a, T: PartialEq>(all: Vec<(&'a str, T)>, same: bool) -> Vec<&'a str> {
        if same {
            let shared = |value: &T| all.iter().filter(|(_, other)| other == value).count() > 1;
            all.iter().filter(|(_, value)| shared(value)).map(|(token, _)| *token).collect()
        } else if all.iter().any(|(_, value)| *value != all[0].1) {
            all.iter().map(|(token, _)| *token).collect()
        } else {
            Vec::new()
        }
    }
    let expected: Vec<(&str, Vec<&str>)> = vec![
        (
            "device_too_small_problem",
            devices.iter().filter(|(_, size, _)| *size < 12288).map(|d| d.0).collect(),
        ),
        (
            "missing_superblock_problem",
            devices.iter().filter(|(_, size, f)| *size >= 12288 && f.is_none()).map(|d| d.0).collect(),
        ),
        ("array_uuid_problem", group(with().map(|(t, f)| (t, &f.uuid)).collect(), false)),
        (
            "array_name_problem",
            group(with().filter_map(|(t, f)| Some((t, f.name.as_ref()?))).collect(), false),
        ),
        ("chunk_size_problem", group(with().map(|(t, f)| (t, f.chunk)).collect(), false)),
        ("device_count_problem", group(with().map(|(t, f)| (t, f.disks)).collect(), false)),
        ("event_count_problem", group(with().map(|(t, f)| (t, f.events)).collect(), false)),
        ("device_role_index_problem", group(with().map(|(t, f)| (t, f.slot)).collect(), true)),
    ];
    for (name, want) in expected {
        let Some((_, lines)) = sections.iter().find(|(section, _)| *section == name) else {
            continue;
        };
        for arg in list {
            let count = lines.iter().filter(|line| line.contains(arg.token)).count();
            let want = want.iter().filter(|token| **token == arg.token).count();
            if count != want {
                return Err(format!("{name} names {} {count} times, not {want}: {stdout}", arg.token));
            }
        }
    }
    Ok(())
}

struct Outcome {
    stdout: String,
    stderr: String,
    /// All that was printed, to both.
    raw: Vec<u8>,
}

fn execute(scratch: &Scratch, naming: Naming, list: &[&Arg]) -> Result<Outcome, String> {
    let dir = crate::verif_dir().join("harness/cli");
    let program = std::env::var_os("MDR_CLI").map_or_else(|| dir.join("target/debug/md-recover"), PathBuf::from);
    let shim = std::env::var_os("MDR_SHIM").map_or_else(|| dir.join("shim.so"), PathBuf::from);
    let file = |name: &str| {
        let path = scratch.output.join(name);
        let file = std::fs::File::create(&path).expect("harness: cannot create an output file");
        (path, file)
    };
    let (stdout_path, stdout) = file("stdout");
    let (stderr_path, stderr) = file("stderr");
    let mut command = Command::new(&program);
    command
        .args((naming == Naming::Relative).then_some("--"))
        .args(list.iter().map(|arg| naming.path(&scratch.dir, &arg.name)))
        .current_dir(&scratch.dir)
        .env("LD_PRELOAD", &shim)
        .env("TMPDIR", &scratch.dir)
        .env("HOME", &scratch.dir)
        .env("LC_ALL", "C")
        .stdin(Stdio::null())
        .stdout(stdout)
        .stderr(stderr);
    unsafe {
        command.pre_exec(|| {
            for (what, limit) in [(libc::RLIMIT_CPU, 20), (libc::RLIMIT_AS, 4 << 30), (libc::RLIMIT_CORE, 0)] {
                let limit = libc::rlimit {
                    rlim_cur: limit,
                    rlim_max: limit,
                };
                libc::setrlimit(what, &limit);
            }
            Ok(())
        });
    }
    let status = command
        .status()
        .unwrap_or_else(|e| panic!("harness: {} does not run: {e}", program.display()));
    let bytes = |path: &Path| std::fs::read(path).expect("harness: cannot read the output");
    let text = |path: &Path| String::from_utf8_lossy(&bytes(path)).into_owned();
    let (stdout, stderr) = (text(&stdout_path), text(&stderr_path));
    let raw = [bytes(&stdout_path), b"\0".to_vec(), bytes(&stderr_path)].concat();
    if let Some(signal) = status.signal() {
        return Err(format!("the command is killed by signal {signal}: {stderr}"));
    }
    if status.code() == Some(101) {
        return Err(format!("the command panics: {stderr}"));
    }
    Ok(Outcome { stdout, stderr, raw })
}

fn judge(ctx: &Ctx, scratch: &Scratch, naming: Naming, list: &[&Arg], outcome: &Outcome) -> Result<(), String> {
    let now = state(&scratch.dir);
    ctx.step();
    if now != scratch.state {
        let changed: Vec<_> = now
            .iter()
            .filter(|f| !scratch.state.contains(f))
            .chain(scratch.state.iter().filter(|f| !now.contains(f)))
            .map(|f| f.0.display().to_string())
            .collect();
        return Err(format!("the command changed files: {changed:?}"));
    }
    let failing: Vec<&&Arg> = list.iter().filter(|arg| matches!(arg.kind, Kind::Fails(_))).collect();
    ctx.step();
    if failing.is_empty() {
        let devices = list
            .iter()
            .map(|arg| {
                let Kind::Device(image, bs) = &arg.kind else { unreachable!() };
                let path = naming.path(&scratch.dir, &arg.name);
                MdDevice::from_block_device(SimDev::new(image.clone(), *bs), Some(path))
                    .unwrap_or_else(|e| panic!("the simulated {} does not open: {e}", arg.token))
            })
            .collect::<Vec<_>>();
        let want = canonical(&format!("{:#?}", MdArray::open(devices).diagnose()));
        let got = canonical(&outcome.stdout);
        if got != want {
            return Err(format!(
                "the diagnosis should be\n{want}\nbut is\n{got}\n(errors: {})",
                outcome.stderr
            ));
        }
        ctx.step();
        return names(&outcome.stdout, list);
    }
    if outcome.stdout.contains("Diagnosis {") {
        return Err(format!("a diagnosis, although devices failed: {}", outcome.stdout));
    }
    let both = format!("{}\n{}", outcome.stdout, outcome.stderr);
    for arg in list {
        ctx.step();
        let lines: Vec<&str> = both
            .lines()
            .filter(|line| line.contains(arg.token))
            .collect();
        match arg.kind {
            Kind::Fails(errno) => {
                let reason = unsafe { std::ffi::CStr::from_ptr(libc::strerror(errno)) };
                let reason = reason.to_str().expect("harness: strerror");
                if lines.is_empty() {
                    return Err(format!("{} failed, but is not named in: {both}", arg.token));
                }
                // Odd names may be broken into lines, and say so elsewhere.
                if !lines.iter().any(|line| line.contains(reason)) && arg.token != "badlink" {
                    return Err(format!("{} failed with {reason:?}, but it says: {lines:?}", arg.token));
                }
                if !both.contains(reason) {
                    return Err(format!("{} failed with {reason:?}, but it says: {both}", arg.token));
                }
            }
            Kind::Device(..) if !lines.is_empty() => {
                return Err(format!("{} did not fail, but is named: {lines:?}", arg.token));
            }
            Kind::Device(..) => {}
        }
    }
    Ok(())
}

fn run(e: &mut Explorer) {
    let args = args();
    for arg in &args {
        assert!(arg.name.as_bytes().starts_with(arg.token.as_bytes()), "harness: token");
    }
    let args = &args;
    let missing = &many_missing();
    let run = |ctx: &Ctx, naming: Naming, list: &[&Arg]| {
        ctx.note(|| format!("{:?}", list.iter().map(|a| a.token).collect::<Vec<_>>()));
        if !list.is_empty() {
            ctx.nontrivial();
        }
        ctx.obs(&ctx.path());
        SCRATCH.with(|scratch| {
            let mut scratch = scratch.borrow_mut();
            let scratch = scratch.get_or_insert_with(|| Scratch::new(args));
            let outcome = execute(scratch, naming, list)?;
            judge(ctx, scratch, naming, list, &outcome)
        })
    };
    e.family("lists", &|ctx: &Ctx| {
        let n = ctx.range(0, 3);
        let list: Vec<&Arg> = (0..n).map(|_| ctx.pick(args)).collect();
        run(ctx, Naming::Absolute, &list)
    });
    let most = if e.thorough { 3 } else { 2 };
    e.family("named otherwise", &|ctx: &Ctx| {
        let naming = *ctx.pick(&[Naming::Relative, Naming::Dotted]);
        let n = ctx.range(1, most);
        let list: Vec<&Arg> = (0..n).map(|_| ctx.pick(args)).collect();
        run(ctx, naming, &list)
    });
    let lengths: Vec<usize> = if e.thorough {
        (4..=130).chain([254, 255, 256, 257, 300]).collect()
    } else {
        vec![4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 25, 26, 27, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 256, 300]
    };
    e.family("long lists", &|ctx: &Ctx| {
        let n = *ctx.pick(&lengths);
        let good = args.iter().filter(|arg| matches!(arg.kind, Kind::Device(..))).collect::<Vec<_>>();
        let list: Vec<&Arg> = match ctx.choose(5) {
            // One device again and again.
            0 => {
                let arg = ctx.pick(args);
                vec![arg; n]
            }
            // All fail.
            1 => missing[..n].iter().collect(),
            // Only the last, or the first, or one of them in the middle.
            2 => {
                let mut list: Vec<&Arg> = good.iter().copied().cycle().take(n - 1).collect();
                list.insert(*ctx.pick(&[0, n / 2, n - 1]), &missing[7]);
                list
            }
            // All of them but one.
            3 => {
                let mut list: Vec<&Arg> = missing[..n - 1].iter().collect();
                list.insert(*ctx.pick(&[0, n / 2, n - 1]), good[0]);
                list
            }
            // Every kind, by turns.
            _ => {
                let from = *ctx.pick(&[0, 5, 11]);
                if ctx.flag() {
                    args.iter().cycle().skip(from).take(n).collect()
                } else {
                    good.iter().copied().cycle().skip(from).take(n).collect()
                }
            }
        };
        run(ctx, Naming::Absolute, &list)
    });
    if e.thorough {
        e.family("lists of four", &|ctx: &Ctx| {
            let list: Vec<&Arg> = (0..4).map(|_| ctx.pick(args)).collect();
            run(ctx, Naming::Absolute, &list)
        });
    }
    let alike = &alike_missing();
    // All sets of one or two.
    let sets: Vec<Vec<usize>> = (0..alike.len())
        .flat_map(|i| (i..alike.len()).map(move |j| if i == j { vec![i] } else { vec![i, j] }))
        .collect();
    let told: std::sync::Mutex<std::collections::HashMap<usize, Vec<u8>>> = Default::default();
    e.family("names alike", &|ctx: &Ctx| {
        // Different devices fail: what is told is different.
        let i = ctx.choose(sets.len());
        let j = ctx.choose(sets.len());
        if i >= j {
            return Ok(());
        }
        let tell = |i: usize| -> Result<Vec<u8>, String> {
            if let Some(raw) = told.lock().unwrap().get(&i) {
                return Ok(raw.clone());
            }
            let list: Vec<&Arg> = sets[i].iter().map(|i| &alike[*i]).collect();
            let raw = SCRATCH.with(|scratch| {
                let mut scratch = scratch.borrow_mut();
                let scratch = scratch.get_or_insert_with(|| Scratch::new(args));
                Ok::<_, String>(execute(scratch, Naming::Relative, &list)?.raw)
            })?;
            told.lock().unwrap().insert(i, raw.clone());
            Ok(raw)
        };
        let names = |i: usize| sets[i].iter().map(|i| &alike[*i].name).collect::<Vec<_>>();
        ctx.note(|| format!("{:?} and {:?}", names(i), names(j)));
        ctx.nontrivial();
        ctx.obs(&(i, j));
        let (one, other) = (tell(i)?, tell(j)?);
        ctx.step();
        if one == other {
            return Err(format!(
                "it says the same if {:?} fail as if {:?} do: {}",
                names(i),
                names(j),
                String::from_utf8_lossy(&one)
            ));
        }
        Ok(())
    });
    e.family("whole arrays", &|ctx: &Ctx| {
        // All members of an array, in every order, with one more or not.
        let order = ctx.permutation(4);
        let members: Vec<&Arg> = ["dev-sda1", "dev-4k-sdb1", "link-sdc1", "dev-odd"]
            .iter()
            .map(|token| args.iter().find(|a| a.token == *token).expect("harness: member"))
            .collect();
        let mut list: Vec<&Arg> = order.iter().map(|i| members[*i]).collect();
        let more = ctx.choose(args.len() + 1);
        if more > 0 {
            let at = ctx.choose(5);
            list.insert(at, &args[more - 1]);
        }
        run(ctx, Naming::Absolute, &list)
    });
}
