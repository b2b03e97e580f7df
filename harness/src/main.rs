//! Runtime monitors for patriecia. See /verif/DESIGN.md.
//!
//! pv check <ID>          the check: runs the workload in a child process, judges, writes evidence
//! pv worker <ID> <file>  the child: runs cases, writes the result to stdout
//! pv case <ID> <seed>    one case with its log (how a replay file is re-run)
//! pv bench <ID>          cases without evidence
//! pv interp <seed> <n> <secs>   small workloads for the interpreter and the sanitizers (U01)
mod conc;
mod core;
mod jcommon;
mod jprops;
mod jrestore;
mod keccak;
mod misc;
mod mpt;
mod pcommon;
mod pprops;
mod smt;
mod ub;

use crate::core::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

macro_rules! j {
    ($x:expr) => {
        concat!("A case is a random history of the versioned tree over an adversarial key universe (random keys, bit-prefix clusters at every depth, 16-way fans, neighbour chains, all-zero and all-one bases), values of 0 to 300 bytes, write sets with insertions, overwrites, deletions, repeated keys and empty sets, any first version, committed through every update interface. ", $x)
    };
}
macro_rules! p {
    ($x:expr) => {
        concat!("A case is a random history of the Patricia trie over an adversarial key universe (empty key, chains of prefixes, fans at one nibble, shared suffixes, hashed keys), values of 1 to 300 bytes around the 32-byte embedding limit, with inserts, overwrites, removals of present and absent keys, commits, reopenings and emptying. ", $x)
    };
}

fn specs() -> Vec<Spec> {
    let mut v = vec![];
    let mut add = |id, f: CaseFn, rule, must: &'static [&'static str]| {
        v.push(Spec { id, f, rule, quick: 400_000, thorough: u64::MAX, quick_s: 25, thorough_s: 600, threads: 8, must })
    };
    add("J01", jprops::j01, j!("Every key and near misses are looked up at every version through every read interface and compared with a plain map per version. Non-trivial: two versions and two keys live at once."), &["lookups_checked", "absent_lookups", "old_version_lookups", "emptied_trees", "on_mock_store", "on_byte_store", "via_batch_interface", "via_put_value_sets"]);
    add("J02", jprops::j02, j!("Every root returned or read back, and every leaf count, is compared with an independent sparse Merkle tree. Non-trivial: two versions and two keys live at once."), &["roots_checked", "leaf_counts_checked", "empty_roots", "sets_with_deletions"]);
    add("J03", jprops::j03, j!("Proofs of present and absent keys at every version go through the library's verifier and an independent one. Non-trivial: two versions and two keys live at once."), &["inclusion_proofs", "absence_by_other_leaf", "absence_by_empty_slot", "deep_proofs"]);
    add("J04", jprops::j04, j!("Genuine proofs are altered (siblings, leaf, key, value, root, version, foreign proofs) and every claim is judged by an independent verifier and the true contents. Non-trivial: two versions and two keys live at once."), &["claims_checked", "genuine_proofs", "forged_proofs"]);
    add("J05", jprops::j05, j!("Exclusion proofs of absent keys are taken at every version and both neighbours checked against the live contents. Non-trivial: two versions and two keys live at once."), &["present_queries", "leftmost", "rightmost", "middle"]);
    add("J06", jprops::j06, j!("ICS23 commitment proofs for keys with known preimages are verified by the ics23 crate against right and wrong roots, keys and values. Non-trivial: two keys live."), &["existence_verified", "absence_verified", "foreign_keys_tried", "foreign_roots_tried"]);
    add("J07", jprops::j07, j!("Iterations from start keys (below, at, between, past live keys) and from indices at every version are compared with the sorted live pairs. Non-trivial: two versions and two keys live at once."), &["iterations_checked", "starts_inside", "starts_past_the_end"]);
    add("J08", jprops::j08, j!("Every stored node is classified by the versions that reach it; stale entries are judged against that, and purging to a version must leave it and all later ones complete. Non-trivial: two versions."), &["stale_entries_checked", "nodes_classified", "nodes_purged", "purges", "left_nodes_checked"]);
    add("J09", jprops::j09, j!("One history is committed one set at a time, in groups, through the batch interface, in permuted order and key by key, and the results compared. Non-trivial: two versions."), &["batch_runs", "grouped_runs", "permuted_runs", "single_key_runs"]);
    add("J10", jprops::j10, j!("Update batches are applied partly (random subsets of nodes and values), then every earlier version is read, the update recomputed or re-applied, and speculative siblings are compared. Non-trivial: two versions."), &["partial_applications", "recomputed_after_crash", "speculative_updates", "stats_checked"]);
    add("J11", jprops::j11, j!("The store fails the n-th read of a call, for all n, or has lost nodes or values; every answer must be the healthy one or an error, and the same call after recovery the healthy one. Non-trivial: two versions."), &["read_failures_injected", "faults_reported", "losses_reported", "value_losses"]);
    add("J12", jrestore::j12, j!("A version is restored from chunks of random sizes, with interruptions, onto another store and compared in all queries. Non-trivial: two live pairs."), &["chunks_accepted", "restores_finished", "resumed_inside", "restarted_over"]);
    add("J13", jrestore::j13, j!("Chunk streams are corrupted (altered, dropped, swapped, foreign, empty chunks; wrong proofs and roots; early finish) and every write to the store is observed. Non-trivial: two live pairs."), &["bad_chunks_refused", "finish_refused", "finished", "completed_after_refusal"]);
    add("J14", jprops::j14, j!("Range proofs for live keys are verified with all pairs up to the key, then with altered pairs, siblings and bounds. Non-trivial: two versions and two keys live at once."), &["range_proofs_verified", "altered_data_refused", "altered_proofs_refused", "oversized_proofs_refused"]);
    add("J15", jprops::j15, j!("Every object a history produces goes through borsh, JSON and bincode and back, also with corrupted bytes; a tree over a byte store is compared with one over objects. Non-trivial: two versions and two keys live at once."), &["roundtrips", "corrupted_refused", "borsh_store", "json_store", "bincode_store", "stored_forms_read"]);
    add("J16", jprops::j16, j!("Random value writes (increasing, equal and decreasing versions) and all queries of the versioned store are compared with an ordered history per key. Non-trivial: two versions."), &["values_checked", "batches_written", "old_writes_refused", "tree_sizes_checked"]);
    add("J17", conc::j17, j!("One writer, three readers and a pruner share the store on five threads with random pauses; readers check whole snapshots. Non-trivial: any concurrent history."), &["snapshots_read", "reads_overlapping_commits", "seen_before_commit_returned", "purges_that_removed", "commits"]);
    add("J18", jprops::j18, j!("After every commit of one or more versions, the written nodes are compared with the nodes that lookups of the changed keys read, and the written values with the sets. Non-trivial: two versions and two live keys."), &["versions_checked", "nodes_written", "leaves_moved", "versions_without_change"]);
    add("J19", jprops::j19, j!("Lookups, proofs, iterations and updates are repeated on a store that has lost every node and value that is neither on the paths of their keys nor directly beside them (for ranges: nor at or after the start). Non-trivial: two versions with two live keys."), &["answers_on_reduced_stores", "updates_on_reduced_stores", "nodes_lost_of_the_version", "nodes_lost"]);
    add("P01", pprops::p01, p!("After every step keys and near misses are looked up and compared with a plain map. Non-trivial: at least one insert."), &["lookups_checked", "absent_lookups", "absent_removes", "removes", "reopens", "empty_values_refused"]);
    add("P02", pprops::p02, p!("Every committed root is compared with an independent Ethereum trie of the live pairs. Non-trivial: at least one insert."), &["roots_checked", "empty_roots", "removes", "reopens"]);
    add("P03", pprops::p03, p!("Committed roots are reopened (all of them on archive storage, with forks and clones and several threads; the latest on pruning storage) and read, iterated and proven. Non-trivial: at least one insert."), &["roots_reopened", "latest_reopened", "forks", "clones", "shared_commits"]);
    add("P04", pprops::p04, p!("In committed, pending and empty states proofs of present and absent keys are verified by the library on another instance and by an independent verifier. Non-trivial: at least one insert."), &["proofs_checked", "absence_proofs", "states_with_pending_changes", "empty_tries", "deep_proofs"]);
    add("P05", pprops::p05, p!("Genuine proofs are doctored and arbitrary hostile node lists built (malformed, nested, cyclic-looking, very long chains); claims are judged by the true contents and an independent verifier, and the same nodes serve as hostile storage. Non-trivial: at least one insert."), &["forged_proofs", "claims_refused", "true_claims_accepted", "attacker_roots_refused", "hostile_storages", "very_long_chains"]);
    add("P06", pprops::p06, p!("In pending and reopened states the borrowing and owning iterators and the value list are compared with the sorted live pairs. Non-trivial: at least one insert."), &["iterations_checked", "pairs_iterated", "states_with_pending_changes"]);
    add("P07", pprops::p07, p!("Database calls fail at chosen positions or nodes are lost during lookups, proofs, inserts, removes and commits; answers must be right or errors, and after recovery everything must work. Non-trivial: at least one insert."), &["faults_injected", "lost_nodes_met", "errors_reported", "commits_failed", "inserts_failed", "removes_failed", "recoveries_committed"]);
    add("P08", pprops::p08, p!("The database writes of commits are recorded and replayed up to every prefix (sampled when longer than 24); the old or new root must be readable and redoing reach the same root. Non-trivial: at least one insert."), &["crash_points", "old_root_readable", "new_root_readable"]);
    add("P09", conc::p09, "A case is a history of 24 operations of 2 to 4 threads on one shared in-memory database with 4 keys and unique values, with random pauses; call and return are stamped from one counter and a Wing-Gong search looks for an order that explains every answer. Non-trivial: operations of different threads overlapped.", &["histories", "overlapping_histories", "overlapping_pairs", "search_states"]);
    add("P10", pprops::p10, p!("After every commit on pruning storage the database is compared node by node with an independent trie. Non-trivial: at least one insert."), &["storages_checked", "nodes_checked", "multi_node_tries", "proofs_in_between", "failed_commits"]);
    add("P11", pprops::p11, p!("Pending tries go through JSON and bincode and back, are compared, committed and continued. Non-trivial: at least one insert."), &["json_trips", "bincode_trips", "continued_on_copy"]);
    add("P12", pprops::p12, p!("Every database operation is recorded; after each step the writes are compared with the nodes of the reference trie and the paths of the changed keys. Non-trivial: at least one insert."), &["commits_checked", "nodes_written", "silent_steps", "commits_of_nothing", "commits_without_removal"]);
    add("P13", pprops::p13, p!("Calls run on databases that have lost every node they do not need, and some that they do; each node named by an error is supplied until the call succeeds. Non-trivial: at least one insert."), &["calls_completed_by_fetching", "calls_not_hurt", "nodes_fetched", "places_named", "other_nodes_lost"]);
    add("S01", misc::s01, "A case hashes one input (lengths around block boundaries, up to 5000 bytes; zero, one and random fill) with the library and an independent Keccak-256, and sends random, zero, one-bit and all-one hash values and versions through all conversions and formats. Non-trivial: all.", &["hashes_checked", "block_boundaries", "round_trips", "hash_values", "versions_checked"]);
    add("U01", ub::u01, "A case is a small workload over a versioned tree, a restore, a trie, or objects handed between threads. Non-trivial: all.", &[]);
    for s in v.iter_mut() {
        match s.id {
            "J17" | "P09" => s.threads = 3,
            _ => {}
        }
    }
    v
}

fn env(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn root() -> PathBuf {
    std::env::var("PV_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if mode == "interp" {
        return interp(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    }
    let id = a.get(2).cloned().unwrap_or_default();
    let spec = match specs().into_iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("usage: pv check|bench <ID> | case <ID> <seed>");
            std::process::exit(2);
        }
    };
    keccak::selftest();
    mpt::selftest();
    match mode {
        // prints the encodings that J15 compares with (src/stored_forms.txt)
        "stored-forms" => {
            for (n, e, _) in jprops::stored_forms().unwrap_or_default() {
                println!("{n} {}", e.iter().map(|x| format!("{x:02x}")).collect::<String>());
            }
        }
        "case" => {
            let s = a[3].parse().unwrap();
            let mut c = Case::new(s, true, thorough());
            // same stack as in the workers
            let (r, log) = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let r = run_case(spec.f, &mut c);
                    (r, c.log)
                })
                .unwrap()
                .join()
                .unwrap();
            if std::env::var("PV_QUIET").is_err() {
                for l in &log {
                    println!("{l}");
                }
            }
            match r {
                CaseEnd::Viol(v) => {
                    println!("VIOLATED {} {}", v.sig, v.msg);
                    std::process::exit(1);
                }
                CaseEnd::Harness(m) => {
                    println!("HARNESS {m}");
                    std::process::exit(2);
                }
                CaseEnd::Held => println!("HELD"),
            }
        }
        "bench" => {
            let o = run_cases(&spec, env("VERIF_SEED", 1), thorough(), &|_, _| {});
            println!("{} eval {} distinct {} wall {:.1} {:?}", spec.id, o.evaluations, o.distinct.len(), o.wall, o.ev);
            if let Some((s, v)) = o.viol {
                println!("  VIOL seed {s}: {} {}", v.sig, v.msg)
            }
            if let Some((s, v)) = o.harness {
                println!("  HARNESS seed {s}: {v}")
            }
        }
        "worker" => worker(&spec, &a[3]),
        "check" => std::process::exit(check(&spec)),
        _ => std::process::exit(2),
    }
}

// ---------------------------------------------------------------- worker

fn worker(spec: &Spec, file: &str) {
    use std::os::unix::fs::FileExt;
    let f = std::fs::OpenOptions::new().write(true).create(true).open(file).expect("in-flight file");
    let o = run_cases(spec, env("VERIF_SEED", 1), thorough(), &|t, s| {
        let _ = f.write_at(&s.to_le_bytes(), 8 * t as u64);
    });
    let j = json!({
        "evaluations": o.evaluations,
        "distinct": o.distinct.len(),
        "ev": o.ev,
        "wall": o.wall,
        "timed_out": o.timed_out,
        "samples": o.sample_seeds,
        "viol": o.viol.map(|(s, v)| json!({"seed": s, "sig": v.sig, "msg": v.msg})),
        "harness": o.harness.map(|(s, m)| json!({"seed": s, "msg": m})),
    });
    println!("{j}");
}

// ---------------------------------------------------------------- check

enum Verdict {
    Held,
    Violated { seed: u64, sig: String, msg: String },
    Unknown(String),
}

struct Run {
    out: String,
    status: Option<std::process::ExitStatus>,
    /// why it was ended, if it was
    stuck: Option<&'static str>,
}

fn ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() > 12 {
        f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
    } else {
        0
    }
}

/// Waits for the child. `wall` is when we start to look closer; it is ended only after using `cpu`
/// seconds of processor time more, or none at all for 20 s.
fn wait(mut ch: Child, wall: Duration, cpu: u64) -> Run {
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let start = Instant::now();
    let mut stuck = None;
    let mut base: Option<u64> = None;
    let mut idle = (0u64, Instant::now());
    let status = loop {
        if let Ok(Some(st)) = ch.try_wait() {
            break Some(st);
        }
        if start.elapsed() > wall {
            let t = ticks(ch.id());
            let b = *base.get_or_insert(t);
            if t != idle.0 {
                idle = (t, Instant::now());
            }
            if idle.1.elapsed() > Duration::from_secs(20) {
                stuck = Some("blocked: no thread has run for 20 s");
            } else if t - b > cpu * 100 {
                stuck = Some("endless: still computing");
            } else if start.elapsed() > wall * 3 + Duration::from_secs(300) {
                stuck = Some("too slow");
            }
            if stuck.is_some() {
                let _ = ch.kill();
                break ch.wait().ok();
            }
        }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_secs(1) { 10 } else { 100 }));
    };
    Run { out: rd.join().unwrap_or_default(), status, stuck }
}

/// Starts this program again, with bounded memory.
fn spawn(args: &[&str], quiet: bool) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new("/bin/sh");
    cmd.arg("-c").arg("ulimit -v 25165824 2>/dev/null; ulimit -c 0 2>/dev/null; exec \"$0\" \"$@\"").arg(exe).args(args);
    if quiet {
        cmd.env("PV_QUIET", "1").stderr(Stdio::null());
    }
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).spawn().expect("start child")
}

fn check(spec: &Spec) -> i32 {
    let start = Instant::now();
    let (seed, tier) = (env("VERIF_SEED", 1), if thorough() { "thorough" } else { "quick" });
    let rep = root().join("replays");
    let _ = std::fs::create_dir_all(&rep);
    let inflight = rep.join(format!(".inflight-{}-{}", spec.id, std::process::id()));
    let cap = if thorough() { spec.thorough_s } else { spec.quick_s };
    let threads = spec.threads as u64;
    let run = wait(spawn(&["worker", spec.id, inflight.to_str().unwrap()], false), Duration::from_secs(cap + 20), 60 * threads);
    let seeds: Vec<u64> = std::fs::read(&inflight).unwrap_or_default().chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
    let _ = std::fs::remove_file(&inflight);
    let res: Value = run.out.lines().last().and_then(|l| serde_json::from_str(l).ok()).unwrap_or(Value::Null);
    let mut verdict = if res.is_object() {
        if !res["viol"].is_null() {
            let sig = res["viol"]["sig"].as_str().unwrap_or("").to_string();
            let msg = res["viol"]["msg"].as_str().unwrap_or("").to_string();
            if sig == "harness" {
                Verdict::Unknown(format!("the harness failed: {msg}"))
            } else {
                Verdict::Violated { seed: res["viol"]["seed"].as_u64().unwrap_or(0), sig, msg }
            }
        } else if !res["harness"].is_null() {
            Verdict::Unknown(format!("the harness failed: {}", res["harness"]))
        } else {
            let zero: Vec<_> = spec.must.iter().filter(|k| res["ev"][**k].as_u64().unwrap_or(0) == 0).collect();
            if zero.is_empty() {
                Verdict::Held
            } else {
                Verdict::Unknown(format!("nothing was observed of: {zero:?}"))
            }
        }
    } else {
        // the process died or hung: find the case that does it
        let mut v = Verdict::Unknown(format!("the workload ended abnormally ({:?}, {:?}) and no single case does so again", run.status, run.stuck));
        for s in &seeds {
            let r = wait(spawn(&["case", spec.id, &s.to_string()], true), Duration::from_secs(60), 60);
            let code = r.status.and_then(|x| x.code());
            use std::os::unix::process::ExitStatusExt;
            let sig = r.status.and_then(|x| x.signal());
            if code == Some(0) || code == Some(2) {
                continue;
            }
            if code == Some(1) {
                let l = r.out.lines().last().unwrap_or("").to_string();
                v = Verdict::Violated { seed: *s, sig: "case".into(), msg: l };
                break;
            }
            match r.stuck {
                Some("too slow") => continue,
                Some(w) => {
                    v = Verdict::Violated { seed: *s, sig: "hang".into(), msg: format!("a case that takes milliseconds does not end ({w})") };
                    break;
                }
                None => {}
            }
            // SIGSEGV and SIGABRT: overflowed stack, exhausted memory, an abort; SIGKILL says nothing
            if matches!(sig, Some(4) | Some(6) | Some(7) | Some(8) | Some(11)) {
                v = Verdict::Violated { seed: *s, sig: "crash".into(), msg: format!("the process is ended by signal {}", sig.unwrap()) };
                break;
            }
        }
        if let (Verdict::Unknown(_), Some(w)) = (&v, run.stuck) {
            if w.starts_with("blocked") && !seeds.is_empty() {
                v = Verdict::Violated { seed: seeds[0], sig: "deadlock".into(), msg: format!("the workload never ends ({w}); cases under way: {seeds:?}") };
            }
        }
        v
    };
    // the recorded defects
    let mut findings = vec![];
    if spec.id == "P01" {
        if let Verdict::Held = verdict {
            match pprops::witness_light_shared() {
                Ok(None) => {}
                Ok(Some(m)) => {
                    let listed = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
                    if listed.lines().any(|l| l.starts_with("known: property=P01 witness=light-shared-subtree ")) {
                        findings.push(m);
                    } else {
                        verdict = Verdict::Violated { seed: 0, sig: "light-shared-subtree".into(), msg: m };
                    }
                }
                Err(v) => verdict = Verdict::Violated { seed: 0, sig: v.sig, msg: v.msg },
            }
        }
    }
    let mut samples = vec![];
    for s in res["samples"].as_array().into_iter().flatten().take(2) {
        let s = s.as_u64().unwrap_or(0);
        let mut c = Case::new(s, true, thorough());
        run_case(spec.f, &mut c);
        let n = c.log.len();
        c.log.truncate(40);
        samples.push(json!({"case": s.to_string(), "steps": n, "first_steps": c.log}));
    }
    let ev: BTreeMap<String, Value> = res["ev"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
    let evidence = json!({
        "property": spec.id,
        "tier": tier,
        "seed": seed,
        "level": if matches!(spec.id, "J11" | "P07" | "P08") { "fault_enumeration" } else { "exploration" },
        "coverage": {
            "evaluations": res["evaluations"].as_u64().unwrap_or(0),
            "distinct_nontrivial": res["distinct"].as_u64().unwrap_or(0),
            "rule": spec.rule,
            "samples": samples,
            "observed": ev,
            "workload_s": res["wall"],
            "known_findings": findings,
        },
        "assumptions": ["holds on the executions observed; the reference models and the hash functions are trusted"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if let Verdict::Violated { .. } = verdict { 1 } else { 0 },
    });
    let ed = root().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&evidence).unwrap()).expect("write evidence");
    for m in &findings {
        println!("KNOWN-FINDING: property={} {m}", spec.id);
    }
    match verdict {
        Verdict::Held => {
            println!("{}: held on {} cases, {} distinct and non-trivial, in {:.1} s", spec.id, res["evaluations"], res["distinct"], start.elapsed().as_secs_f64());
            0
        }
        Verdict::Unknown(m) => {
            println!("INCONCLUSIVE property={} {m}", spec.id);
            2
        }
        Verdict::Violated { seed: s, sig, msg } => {
            let path = rep.join(format!("{}-{}.txt", spec.id, s));
            let mut f = std::fs::File::create(&path).expect("write replay");
            let _ = writeln!(f, "property {} violated: {sig}: {msg}", spec.id);
            let _ = writeln!(f, "tier {tier}, VERIF_SEED {seed}; one case again: VERIF_TIER={tier} /verif/target/debug/pv case {} {s}", spec.id);
            if s != 0 && !matches!(sig.as_str(), "crash" | "hang" | "deadlock") {
                let r = wait(spawn(&["case", spec.id, &s.to_string()], false), Duration::from_secs(60), 60);
                let _ = writeln!(f, "{}", r.out);
            }
            println!("{sig}: {}", msg.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", spec.id, path.display());
            1
        }
    }
}

// ---------------------------------------------------------------- interpreter

/// Runs small workloads one after another on this thread, reporting after each.
fn interp(seed: u64, n: u64, secs: u64) {
    let start = Instant::now();
    let mut ev: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut done = 0;
    for i in 0..n {
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let s = case_seed(seed, "U01", i);
        eprintln!("CASE {s}");
        let mut c = Case::new(s, false, false);
        match run_case(ub::u01, &mut c) {
            CaseEnd::Viol(v) => {
                println!("VIOLATED {s} {} {}", v.sig, v.msg);
                std::process::exit(1);
            }
            CaseEnd::Harness(m) => {
                println!("HARNESS {m}");
                std::process::exit(2);
            }
            CaseEnd::Held => {}
        }
        done += 1;
        for (k, v) in c.ev {
            *ev.entry(k).or_insert(0) += v;
        }
    }
    println!("{}", json!({"cases": done, "ev": ev}));
}
