//! Model checker for md-recover: exhaustively explores bounded spaces of
//! executions of the real code and compares each with a reference model.

mod explore;
mod ext4ref;
mod interpose;
mod json;
mod mdref;
mod simdev;

#[cfg(feature = "blockdev")]
mod blockdev;
#[cfg(feature = "cli")]
mod cli;
#[cfg(feature = "e2e")]
mod e2e;
#[cfg(feature = "ext4_dir")]
mod ext4_dir;
#[cfg(feature = "ext4_fields")]
mod ext4_fields;
#[cfg(feature = "ext4_fs")]
mod ext4_fs;
#[cfg(feature = "ext4_io")]
mod ext4_io;
#[cfg(feature = "ext4_sb")]
mod ext4_sb;
#[cfg(feature = "ext4_string")]
mod ext4_string;
#[cfg(feature = "locality")]
mod locality;
#[cfg(feature = "md_array")]
mod md_array;
#[cfg(feature = "md_diag")]
mod md_diag;
#[cfg(feature = "md_map")]
mod md_map;
#[cfg(feature = "md_sb")]
mod md_sb;
#[cfg(feature = "robust")]
mod robust;

use explore::{Explorer, Guard, Violation};
use json::Json;
use std::path::{Path, PathBuf};
use std::time::Instant;

#[global_allocator]
static GUARD: Guard = Guard;

pub struct Check {
    pub id: &'static str,
    pub level: Level,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// What assurance the check gives.
    pub note: &'static str,
    pub run: fn(&mut Explorer),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Level {
    Exploration,
    Faults,
    Model,
}

impl Level {
    fn name(self) -> &'static str {
        match self {
            Level::Exploration => "exploration",
            Level::Faults => "fault_enumeration",
            Level::Model => "model_checking",
        }
    }
}

fn checks() -> Vec<Check> {
    #[allow(unused_mut)]
    let mut checks = Vec::new();
    #[cfg(feature = "md_map")]
    checks.extend(md_map::checks());
    #[cfg(feature = "md_array")]
    checks.extend(md_array::checks());
    #[cfg(feature = "md_sb")]
    checks.extend(md_sb::checks());
    #[cfg(feature = "md_diag")]
    checks.extend(md_diag::checks());
    #[cfg(feature = "blockdev")]
    checks.extend(blockdev::checks());
    #[cfg(feature = "ext4_sb")]
    checks.extend(ext4_sb::checks());
    #[cfg(feature = "ext4_fields")]
    checks.extend(ext4_fields::checks());
    #[cfg(feature = "ext4_string")]
    checks.extend(ext4_string::checks());
    #[cfg(feature = "ext4_fs")]
    checks.extend(ext4_fs::checks());
    #[cfg(feature = "ext4_dir")]
    checks.extend(ext4_dir::checks());
    #[cfg(feature = "ext4_io")]
    checks.extend(ext4_io::checks());
    #[cfg(feature = "robust")]
    checks.extend(robust::checks());
    #[cfg(feature = "e2e")]
    checks.extend(e2e::checks());
    #[cfg(feature = "locality")]
    checks.extend(locality::checks());
    #[cfg(feature = "cli")]
    checks.extend(cli::checks());
    checks
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| {
            Path::new(env!("CARGO_MANIFEST_DIR"))
                .ancestors()
                .nth(2)
                .unwrap()
                .to_owned()
        })
}

fn save_replay(property: &str, v: &Violation) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}.replay"));
    let choices: Vec<String> = v.choices.iter().map(u32::to_string).collect();
    let mut text = format!(
        "property {property}\nfamily {}\nchoices {}\n",
        v.family,
        choices.join(" ")
    );
    for line in v.message.lines() {
        text += &format!("# {line}\n");
    }
    for note in &v.notes {
        for line in note.lines() {
            text += &format!("#   {line}\n");
        }
    }
    let _ = std::fs::write(&path, text);
    println!("{property}: {}: {}", v.family, v.message);
    for note in &v.notes {
        println!("  {note}");
    }
    println!("VIOLATION property={property} replay={}", path.display());
}

/// Lines `known: property=<id> case=<family>:[choices] <what fails>`.
fn known_findings(property: &str) -> Vec<(String, String)> {
    let Ok(text) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else {
        return Vec::new();
    };
    text.lines()
        .filter_map(|line| {
            let rest = line.strip_prefix("known: property=")?;
            let (id, rest) = rest.split_once(' ')?;
            let rest = rest.strip_prefix("case=")?;
            let (case, what) = rest.split_once("] ")?;
            (id == property).then(|| (format!("{case}]"), what.to_string()))
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let checks = checks();
    if args.first().map(String::as_str) == Some("--list") {
        for check in &checks {
            println!("{}\t{}\t{}", check.id, check.level.name(), check.note);
        }
        return;
    }
    let (id, thorough, replay) = match args.as_slice() {
        [flag, path] if flag == "--replay" => {
            let text = std::fs::read_to_string(path).expect("cannot read the replay file");
            let get = |key: &str| {
                text.lines()
                    .find_map(|l| l.strip_prefix(key))
                    .unwrap_or_default()
                    .trim()
                    .to_string()
            };
            let choices = get("choices ")
                .split_whitespace()
                .map(|c| c.parse().expect("bad choice"))
                .collect();
            // Families of the quick tier are families of the thorough tier.
            (get("property "), true, Some((get("family "), choices)))
        }
        [id, tier] if tier == "quick" || tier == "thorough" => {
            (id.clone(), tier == "thorough", None)
        }
        _ => {
            eprintln!("usage: mc <property> quick|thorough | mc --replay <file> | mc --list");
            std::process::exit(2);
        }
    };
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        eprintln!("no check for {id}");
        std::process::exit(2);
    };
    let property = check.id;
    explore::install(move |v| save_replay(property, v));

    let start = Instant::now();
    let replaying = replay.is_some();
    let known = known_findings(property);
    let mut violation = None;
    let mut explorer = Explorer::new(property, thorough);
    explorer.known = known.iter().map(|(case, _)| case.clone()).collect();
    explorer.replay = replay.clone();
    (check.run)(&mut explorer);
    if replaying && !explorer.replay_ran {
        // Families may have other bounds in the quick tier.
        explorer = Explorer::new(property, false);
        explorer.replay = replay;
        (check.run)(&mut explorer);
    }
    if let Some(v) = &explorer.violation {
        save_replay(property, v);
        violation = Some(());
    }
    if replaying {
        std::process::exit(if violation.is_some() { 1 } else { 0 });
    }
    for (case, what) in &known {
        if explorer.known_hit.contains(case) {
            println!("KNOWN-FINDING: property={property} {what}");
        }
    }

    let t = &explorer.totals;
    let mut coverage = vec![];
    let samples = Json::Array(
        explorer
            .samples
            .iter()
            .take(12)
            .map(|s| Json::Str(s.chars().take(1500).collect()))
            .collect(),
    );
    match check.level {
        Level::Exploration | Level::Faults => {
            coverage.push(("evaluations", Json::Int(t.evaluations)));
            coverage.push(("distinct_nontrivial", Json::Int(t.digests.len() as u64)));
            coverage.push(("rule", Json::Str(check.rule.into())));
            coverage.push(("samples", samples));
            coverage.push(("comparisons_with_the_oracle", Json::Int(t.transitions)));
        }
        Level::Model => {
            coverage.push(("states", Json::Int(t.states.len() as u64)));
            coverage.push(("transitions", Json::Int(t.transitions)));
            coverage.push(("traces_validated_against_impl", Json::Int(t.evaluations)));
            coverage.push(("samples", samples));
            coverage.push(("distinct_nontrivial_traces", Json::Int(t.digests.len() as u64)));
            coverage.push(("rule", Json::Str(check.rule.into())));
        }
    }
    coverage.push(("exhaustive", Json::Bool(explorer.violation.is_none())));
    coverage.push((
        "families",
        Json::Array(
            explorer
                .families
                .iter()
                .map(|(name, evaluations, nontrivial, wall)| {
                    Json::Object(vec![
                        ("name", Json::Str(name.clone())),
                        ("executions", Json::Int(*evaluations)),
                        ("nontrivial", Json::Int(*nontrivial)),
                        ("wall_s", Json::Num(*wall)),
                    ])
                })
                .collect(),
        ),
    ));
    let evidence = Json::Object(vec![
        ("property", Json::Str(property.into())),
        (
            "tier",
            Json::Str(if thorough { "thorough" } else { "quick" }.into()),
        ),
        (
            "seed",
            Json::Int(
                std::env::var("VERIF_SEED")
                    .ok()
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(0),
            ),
        ),
        ("level", Json::Str(check.level.name().into())),
        ("coverage", Json::Object(coverage)),
        (
            "assumptions",
            Json::Array(
                check
                    .assumptions
                    .iter()
                    .map(|s| Json::Str(s.to_string()))
                    .collect(),
            ),
        ),
        ("wall_s", Json::Num(start.elapsed().as_secs_f64())),
        (
            "violations",
            Json::Int(if violation.is_some() { 1 } else { 0 }),
        ),
    ]);
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).expect("cannot create the evidence directory");
    std::fs::write(dir.join(format!("{property}.json")), evidence.to_string() + "\n")
        .expect("cannot write the evidence file");
    println!(
        "{property}: {} executions, {} non-trivial and distinct, {} comparisons, {} model states, {:.1} s",
        t.evaluations,
        t.digests.len(),
        t.transitions,
        t.states.len(),
        start.elapsed().as_secs_f64()
    );
    if violation.is_none() && (t.evaluations == 0 || t.digests.is_empty()) {
        eprintln!("harness: nothing was explored");
        std::process::exit(2);
    }
    std::process::exit(if violation.is_some() { 1 } else { 0 });
}

/// A scratch directory of its own for each case.
#[allow(dead_code)]
pub fn tempdir() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!(
        "mc-{}-{}",
        std::process::id(),
        NEXT.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::create_dir(&dir).expect("harness: cannot create a scratch directory");
    dir
}
