//! Explicit-state model checker for fuel-merkle: enumerates bounded spaces of histories, faults
//! and inputs on the real library and compares every step with executable models.
mod alloc;
mod engine;
mod p_binary;
mod p_cfg;
mod p_common;
mod p_content;
#[cfg(feature = "helpers")]
mod p_data;
mod p_inside;
mod p_large;
mod p_memory;
mod p_more;
mod p_order;
mod p_repeat;
mod p_sparse;
mod p_special;
mod p_stores;
mod p_sum;
#[cfg(feature = "helpers")]
mod p_verify;
mod p_whole;
mod refm;
mod store;

use engine::*;
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{exit, Command};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

#[global_allocator]
static ALLOC: alloc::Pool = alloc::Pool;

pub struct Cfg {
    prop: String,
    tier: Tier,
    evidence: String,
    replays: String,
    t0: Instant,
}
static CFG: OnceLock<Cfg> = OnceLock::new();

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "shipped"
    }
}

fn spaces(prop: &str, t: Tier) -> Vec<Space<'static>> {
    match prop {
        "C01" => p_sparse::c01(t).into_iter().chain(p_content::c01_content(t)).chain(p_repeat::c01_repeat(t)).collect(),
        "C02" => p_sparse::c02(t).into_iter().chain(p_repeat::c02_repeat(t)).collect(),
        "C03" => p_sparse::c03(t),
        "C04" => p_sparse::c04(t),
        "C05" => p_sparse::c05(t).into_iter().chain(p_large::c05_large(t)).collect(),
        "C06" => p_sparse::c06(t).into_iter().chain(p_large::c06_large(t)).chain(p_repeat::c06_repeat(t)).collect(),
        "C07" => p_sparse::c07(t).into_iter().chain(p_large::c07_large(t)).chain(p_repeat::c07_repeat(t)).collect(),
        "C08" => p_binary::c08(t).into_iter().chain(p_content::c08_content(t)).collect(),
        "C09" => p_binary::c09(t).into_iter().chain(p_order::c09_order(t)).chain(p_repeat::c09_repeat(t)).collect(),
        "C10" => p_binary::c10(t).into_iter().chain(p_repeat::c10_repeat(t)).collect(),
        "C11" => p_binary::c11(t),
        "C12" => p_binary::c12(t).into_iter().chain(p_order::c12_order(t)).chain(p_repeat::c12_repeat(t)).collect(),
        "C13" => p_binary::c13(t).into_iter().chain(p_order::c13_order(t)).chain(p_repeat::c13_repeat(t)).collect(),
        "C14" => p_binary::c14(t),
        "C15" => p_sum::c15(t).into_iter().chain(p_content::c15_content(t)).chain(p_repeat::c15_repeat(t)).collect(),
        "C16" => p_sum::c16(t),
        "C17" => p_sum::c17(t).into_iter().chain(p_repeat::c17_repeat(t)).collect(),
        "C18" => p_common::c18(t),
        "C19" => p_common::c19(t),
        "C20" => p_common::c20(t).into_iter().chain(p_repeat::c20_repeat(t)).collect(),
        "C21" => p_common::c21(t).into_iter().chain(p_content::c21_content(t)).chain(p_repeat::c21_repeat(t)).collect(),
        "C22" => p_common::c22(t).into_iter().chain(p_content::c22_content(t)).collect(),
        #[cfg(feature = "helpers")]
        "C23" => p_verify::c23(t),
        "C25" => p_common::c25(t),
        "C26" => p_whole::c26(t).into_iter().chain(p_inside::c26_inside(t)).collect(),
        "C27" => p_whole::c27(t),
        "C28" => p_more::c28(t),
        "C29" => p_more::c29(t).into_iter().chain(p_large::c29_large(t)).collect(),
        "C30" => p_more::c30(t),
        #[cfg(feature = "helpers")]
        "C31" => p_data::c31(t),
        "C32" => p_stores::c32(t),
        "C33" => p_memory::c33(t),
        _ => {
            eprintln!("unknown property {prop}");
            exit(2)
        }
    }
}
fn level(prop: &str) -> &'static str {
    match prop {
        "C06" | "C07" | "C12" | "C13" | "C17" | "C28" | "C29" => "fault_enumeration",
        _ => "model_checking",
    }
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C06" => "case = (history, operation, index and mode of the failing storage call, follow-up); non-trivial: the armed call was really made and failed; distinct by history, operation, call, mode and resulting state",
        "C07" => "case = (history, damaged entry, damage, operation); non-trivial: the entry was stored and was really damaged; distinct by reached state, entry, damage and operation",
        "C12" => "case = (leaf count, live or loaded, operation, failing call, mode, follow-up); distinct by these, each executed",
        "C13" => "case = (leaf count, set of lost entries); all loads and proofs are run in each; distinct by leaf count and set",
        "C17" => "case = (leaf count, operation, earlier queries, failing call, mode, follow-up); distinct by these",
        "C28" => "case = (tree, what is wrong: index, lost node, marker or failing call, operation); non-trivial: an error was reported and its kind, debug form and text were compared; distinct by tree, fault and operation",
        "C29" => "case = (reached store, operation, set of its writes that were made, follow-up); non-trivial: the operation was really run and its writes recorded; distinct by resulting store and map, or by tree, operation and set of writes",
        _ => "",
    }
}

/// Entries of KNOWN_FINDINGS.txt about defects that were recorded, not repaired.
pub fn known_findings(prop: &str) -> Vec<String> {
    let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../KNOWN_FINDINGS.txt");
    let path = std::env::var("MC_KNOWN").unwrap_or_else(|_| path.into());
    let start = format!("known: property={prop} ");
    std::fs::read_to_string(path).unwrap_or_default().lines().filter(|l| l.starts_with(&start)).map(|l| l.to_string()).collect()
}

fn replay_file(v: &Violation) -> String {
    let c = CFG.get().unwrap();
    let _ = std::fs::create_dir_all(&c.replays);
    let path = format!("{}/{}-{:016x}.replay", c.replays, c.prop, fp(&(&v.space, v.index)));
    let text = format!(
        "property: {}\ntier: {}\nprofile: {}\nspace: {}\nindex: {}\ncase: {}\nfound: {}\n",
        c.prop,
        c.tier.name(),
        profile(),
        v.space,
        v.index,
        v.case,
        v.what.replace('\n', " ")
    );
    let _ = std::fs::write(&path, text);
    path
}
pub fn report_violation_and_exit(v: &Violation) -> ! {
    let c = CFG.get().unwrap();
    let p = replay_file(v);
    println!("case: [{} #{}] {}", v.space, v.index, v.case);
    println!("found ({} build): {}", profile(), v.what);
    println!("VIOLATION property={} replay={}", c.prop, p);
    let cov = format!(
        "{{\"evaluations\":0,\"distinct_nontrivial\":0,\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"rule\":{},\"samples\":[{}]}}",
        jstr("stopped at the first violation"),
        jstr(&format!("{}: {}", v.case, v.what))
    );
    write_evidence(&cov, 1);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    exit(1)
}
fn write_evidence(coverage: &str, violations: u32) {
    let c = CFG.get().unwrap();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(&c.prop),
        jstr(c.tier.name()),
        seed,
        jstr(level(&c.prop)),
        coverage,
        [
            "SHA-256 as implemented by the sha2 crate, checked against published vectors at start",
            "nothing is sampled: every space is enumerated completely within its stated bound; the seed is not used",
        ]
        .iter()
        .map(|s| jstr(s))
        .collect::<Vec<_>>()
        .join(", "),
        c.t0.elapsed().as_secs_f64(),
        violations
    );
    if let Some(d) = Path::new(&c.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&c.evidence, s).expect("write evidence");
}

fn coverage_json(acc: &Acc, reps: &[SpaceReport], prop: &str, shipped: Option<String>) -> String {
    let samples: Vec<String> = reps.iter().flat_map(|r| r.samples.iter().map(|s| jstr(s))).collect();
    let exhaustive = reps.iter().all(|r| r.done == r.total);
    let sp: Vec<String> = reps
        .iter()
        .map(|r| format!("{{\"space\":{},\"cases\":{},\"of\":{},\"wall_s\":{:.2}}}", jstr(&r.name), r.done, r.total, r.wall))
        .collect();
    let notes: Vec<String> = acc.notes.lock().unwrap().iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    let counts = if level(prop) == "fault_enumeration" {
        format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"operations_checked\":{}",
            acc.evals.load(SeqCst),
            acc.distinct.load(SeqCst),
            jstr(rule(prop)),
            acc.trans.load(SeqCst)
        )
    } else {
        format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}",
            acc.distinct.load(SeqCst),
            acc.trans.load(SeqCst),
            acc.traces.load(SeqCst)
        )
    };
    format!(
        "{{{counts},\n  \"exhaustive\":{exhaustive},\n  \"spaces\":[{}],\n  \"notes\":{{{}}},\n  {}\"samples\":[{}]}}",
        sp.join(",\n   "),
        notes.join(", "),
        shipped.map(|s| format!("\"also_run_without_overflow_checks\":{s},\n  ")).unwrap_or_default(),
        samples.join(",\n   ")
    )
}

/// properties whose spaces are also run on a build without overflow checks
const BOTH: &[&str] = &["C09", "C10", "C14", "C15", "C18", "C19", "C25"];

fn main() {
    install_hook();
    refm::selftest();
    refm::selftest_incremental();
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("mc check PROP TIER EVIDENCE REPLAYDIR | mc one PROP TIER SPACE INDEX | mc battery TIER [SECTION] | mc list PROP TIER");
        exit(2)
    };
    let tier = |s: &str| match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("battery") if a.len() >= 3 => p_cfg::battery(tier(&a[2]), a.get(3).map(|s| s.as_str())),
        Some("list") if a.len() == 4 => {
            for s in spaces(&a[2], tier(&a[3])) {
                println!("{:>12} {}", s.total, s.name);
            }
        }
        Some("space") if a.len() == 5 => {
            // the spaces whose names contain a text, and how much memory they leave in use
            let acc = Acc::new();
            for s in spaces(&a[2], tier(&a[3])) {
                if s.name.contains(&a[4]) {
                    let r = explore(&s, &acc, 8, Duration::from_secs(60));
                    let rss = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
                    let rss = rss.lines().find(|l| l.starts_with("VmRSS")).unwrap_or("").to_string();
                    match r {
                        Ok(r) => println!("{}: {} of {} cases, {:.1} s, {rss}", r.name, r.done, r.total, r.wall),
                        Err(v) => println!("{}: case {}: {}", s.name, v.index, v.what),
                    }
                }
            }
        }
        Some("one") if a.len() == 6 => {
            let acc = Acc::new();
            for s in spaces(&a[2], tier(&a[3])) {
                if s.name == a[4] {
                    let i: u64 = a[5].parse().unwrap();
                    println!("case: {}", (s.desc)(i));
                    match run_one(&s, i, &acc) {
                        Some(v) => {
                            println!("found: {}", v.what);
                            exit(1)
                        }
                        None => {
                            println!("holds");
                            exit(0)
                        }
                    }
                }
            }
            eprintln!("no such space");
            exit(2)
        }
        Some("check") if a.len() == 6 => {
            let _ =
                CFG.set(Cfg { prop: a[2].clone(), tier: tier(&a[3]), evidence: a[4].clone(), replays: a[5].clone(), t0: Instant::now() });
            if a[2] == "C24" {
                check_cfg()
            } else {
                check()
            }
        }
        _ => usage(),
    }
}

fn check() {
    let c = CFG.get().unwrap();
    let acc = Acc::new();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(64);
    let budget = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(c.tier.pick(500u64, 36_000));
    *acc.stop_at.lock().unwrap() = Some(Instant::now() + Duration::from_secs(budget));
    let hang = Duration::from_secs(60);
    #[cfg(feature = "helpers")]
    match c.prop.as_str() {
        "C23" => p_verify::known("C23"),
        "C31" => p_verify::known("C31"),
        _ => {}
    }
    let mut reps = vec![];
    for s in spaces(&c.prop, c.tier) {
        match explore(&s, &acc, threads, hang) {
            Err(v) => report_violation_and_exit(&v),
            Ok(r) => {
                println!("{} {}: {} of {} cases, {:.1} s", c.prop, r.name, r.done, r.total, r.wall);
                reps.push(r)
            }
        }
    }
    let mut shipped = None;
    if BOTH.contains(&c.prop.as_str()) && profile() == "checked" {
        if let Ok(bin) = std::env::var("MC_SHIPPED") {
            let ev = format!("{}.shipped", c.evidence);
            let o = Command::new(&bin).args(["check", &c.prop, c.tier.name(), &ev, &c.replays]).output().expect("run the shipped build");
            let out = String::from_utf8_lossy(&o.stdout);
            let text = std::fs::read_to_string(&ev).unwrap_or_default();
            let _ = std::fs::remove_file(&ev);
            match o.status.code() {
                Some(0) => {
                    let a = text.find("\"coverage\": ").expect("child evidence") + 12;
                    let b = text.find(",\n \"assumptions\"").unwrap();
                    shipped = Some(text[a..b].to_string());
                    println!("{} also held on the build without overflow checks", c.prop);
                }
                Some(1) => {
                    print!("{out}");
                    let cov = format!(
                        "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"samples\":[{}]}}",
                        acc.distinct.load(SeqCst),
                        acc.trans.load(SeqCst),
                        acc.traces.load(SeqCst),
                        jstr(out.lines().find(|l| l.starts_with("case:")).unwrap_or(""))
                    );
                    write_evidence(&cov, 1);
                    exit(1)
                }
                _ => {
                    print!("{out}{}", String::from_utf8_lossy(&o.stderr));
                    use std::os::unix::process::ExitStatusExt;
                    if matches!(o.status.signal(), Some(6) | Some(11)) {
                        report_violation_and_exit(&Violation {
                            space: "whole run".into(),
                            index: 0,
                            what: format!("the process was ended by signal {:?} in the build without overflow checks", o.status.signal()),
                            case: "whole run".into(),
                        })
                    }
                    exit(2)
                }
            }
        }
    }
    write_evidence(&coverage_json(&acc, &reps, &c.prop, shipped), 0);
    println!(
        "{} held: {} distinct states, {} transitions, {} traces, {} fault cases, {:.1} s",
        c.prop,
        acc.distinct.load(SeqCst),
        acc.trans.load(SeqCst),
        acc.traces.load(SeqCst),
        acc.evals.load(SeqCst),
        c.t0.elapsed().as_secs_f64()
    );
}

/// C24: run the battery in every build given in MC_BINS ("name=path,...") and compare.
fn check_cfg() {
    let c = CFG.get().unwrap();
    let bins: Vec<(String, String)> = std::env::var("MC_BINS")
        .expect("MC_BINS")
        .split(',')
        .map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap())
        .collect();
    let kids: Vec<_> = bins
        .iter()
        .map(|(_, p)| Command::new(p).args(["battery", c.tier.name()]).stdout(std::process::Stdio::piped()).spawn().expect("spawn"))
        .collect();
    let mut table: Vec<BTreeMap<String, (u64, String, u64, String)>> = vec![];
    for (k, (name, _)) in kids.into_iter().zip(&bins) {
        let o = k.wait_with_output().expect("wait");
        if !o.status.success() {
            report_violation_and_exit(&Violation {
                space: "battery".into(),
                index: 0,
                what: format!("the battery died in the build {name}: {}", o.status),
                case: name.clone(),
            });
        }
        table.push(
            String::from_utf8_lossy(&o.stdout)
                .lines()
                .map(|l| {
                    let f: Vec<&str> = l.splitn(5, '\t').collect();
                    (f[0].to_string(), (f[1].parse().unwrap(), f[2].to_string(), f[3].parse().unwrap(), f[4].to_string()))
                })
                .collect(),
        );
    }
    for (si, sec) in p_cfg::sections().iter().enumerate() {
        for b in 1..bins.len() {
            if table[b].get(sec.0).map(|x| &x.1) == table[0].get(sec.0).map(|x| &x.1) {
                continue;
            }
            // find the first line that differs
            let get = |p: &str| {
                let o = Command::new(p).args(["battery", c.tier.name(), sec.0]).output().expect("run");
                String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect::<Vec<_>>()
            };
            let (x, y) = (get(&bins[0].1), get(&bins[b].1));
            let i = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
            let none = "(nothing)".to_string();
            report_violation_and_exit(&Violation {
                space: format!("battery section {si} {}", sec.0),
                index: i as u64,
                what: format!("{}: {}   but   {}: {}", bins[0].0, x.get(i).unwrap_or(&none), bins[b].0, y.get(i).unwrap_or(&none)),
                case: x.get(i).unwrap_or(&none).split(" => ").next().unwrap_or("").to_string(),
            });
        }
        println!("C24 {}: {} outcomes equal in {} builds", sec.0, table[0][sec.0].0, bins.len());
    }
    let lines: u64 = table[0].values().map(|x| x.0).sum();
    let distinct: u64 = table[0].values().map(|x| x.2).sum();
    let samples: Vec<String> = table[0].iter().map(|(k, x)| jstr(&format!("[{k}] {}", x.3))).collect();
    let secs: Vec<String> = table[0].iter().map(|(k, x)| format!("{}:{}", jstr(k), x.0)).collect();
    let cov = format!(
        "{{\"states\":{distinct},\"transitions\":{lines},\"traces_validated_against_impl\":{},\n  \"exhaustive\":true,\n  \"builds\":[{}],\n  \"outcomes_per_section\":{{{}}},\n  \"samples\":[{}]}}",
        lines * (bins.len() as u64 - 1),
        bins.iter().map(|b| jstr(&b.0)).collect::<Vec<_>>().join(", "),
        secs.join(", "),
        samples.join(",\n   ")
    );
    write_evidence(&cov, 0);
    println!("C24 held: {lines} outcomes equal in {} builds", bins.len());
}
