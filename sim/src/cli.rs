//! C10: the command line tools, each run a simulated process on a simulated
//! disk, whose main function is the tool's own.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicPtr, Ordering::Relaxed};

use hugr::HugrView;
use libc::{c_char, c_int};
use serde::{Deserialize, Serialize};
use tket::rewrite::ECCRewriter;
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, METADATA_INPUT_PARAMETERS};
use tket::serialize::{load_tk1_json_reader, save_tk1_json_str};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;

use crate::circ::{self, GenOpts};
use crate::dev;
use crate::io;
use crate::procs;
use crate::runner::*;
use crate::simfs::{self, disk, Plan, ROOT};
use crate::simrt::{self, quiet};
use crate::tape::Tape;

// ------------------------------------------------------- arguments and exits

static ARGV: AtomicPtr<*mut c_char> = AtomicPtr::new(std::ptr::null_mut());
unsafe extern "C" fn keep_argv(_: c_int, argv: *mut *mut c_char, _: *mut *mut c_char) {
    ARGV.store(argv, Relaxed);
}
#[used]
#[link_section = ".init_array"]
static KEEP: unsafe extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) = keep_argv;

/// Gives this process another command line.
fn set_args(args: &[String]) {
    let v = ARGV.load(Relaxed);
    unsafe {
        for (k, a) in args.iter().enumerate() {
            assert!(!(*v.add(k)).is_null(), "too many arguments");
            *v.add(k) = std::ffi::CString::new(a.as_str()).unwrap().into_raw();
        }
        *v.add(args.len()) = std::ptr::null_mut();
    }
}

static TOOL: AtomicBool = AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if TOOL.load(Relaxed) {
        leave(code)
    }
    let real: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"exit".as_ptr()));
    real(code)
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct End {
    code: i32,
    files: BTreeMap<String, String>,
    fired: Vec<(String, String)>,
    faults: BTreeMap<String, u64>,
    out: String,
    err: String,
    calls: u64,
}

fn hex(b: &[u8]) -> String {
    b.iter().flat_map(|x| [x >> 4, x & 15]).map(|n| char::from_digit(n as u32, 16).unwrap()).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    s.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}

fn end(code: i32) -> String {
    let d = disk();
    let text = |k: usize| String::from_utf8_lossy(&d.printed[k]).chars().take(4000).collect();
    serde_json::to_string(&End {
        code,
        files: d.list().into_iter().map(|f| (f.clone(), hex(&d.get(&f).unwrap()))).collect(),
        fired: d.fired.iter().map(|f| (f.0.to_string(), f.1.clone())).collect(),
        faults: faults(),
        out: text(0),
        err: text(1),
        calls: d.calls,
    })
    .unwrap()
}

fn leave(code: i32) -> ! {
    quiet(|| {
        let e = end(code);
        simrt::put(0, &e)
    })
}

fn status<T: std::process::Termination>(r: T) -> i32 {
    let ok = format!("{:?}", std::process::ExitCode::SUCCESS);
    (format!("{:?}", r.report()) != ok) as i32
}

/// One run of a tool.
fn invoke(tool: &str, args: &[String], seed: u64, plan: Plan, spawn_fail: u32) -> Result<End, Violation> {
    let mut argv = vec![tool.to_string()];
    argv.extend(args.iter().cloned());
    let r = simrt::process(seed, LIMIT, || {
        quiet(|| {
            set_args(&argv);
            forget_faults();
            disk().rearm(plan.clone());
            disk().calls = 0;
            disk().printed = Default::default();
            disk().on_crash = Some(|| leave(137));
        });
        simfs::CWD.store(true, Relaxed);
        TOOL.store(true, Relaxed);
        simrt::SPAWN_FAIL.store(spawn_fail, Relaxed);
        let r = std::panic::catch_unwind(|| match tool {
            "badger-optimiser" => status(cli_badger::main()),
            _ => status(cli_rewriter::main()),
        });
        // as the runtime does at the end of a process
        use std::io::Write;
        let _ = std::io::stdout().flush();
        quiet(|| end(r.unwrap_or(101)))
    });
    match r {
        Ok(s) => {
            let e: End = serde_json::from_str(&s).map_err(|e| Violation { class: "harness".into(), msg: e.to_string() })?;
            add_faults(&e.faults);
            Ok(e)
        }
        Err(e) if e.starts_with("process: ") => Err(Violation { class: "hang".into(), msg: format!("{tool} {args:?}: {e}") }),
        Err(e) => Ok(End { code: 134, err: e, ..Default::default() }),
    }
}

const LIMIT: u64 = 6_000_000;

// ------------------------------------------------------------------ checking

fn load(data: &[u8]) -> Result<Circuit, String> {
    quiet(|| load_tk1_json_reader(data, DecodeOptions::new().with_config(tket_qsystem::pytket::qsystem_decoder_config())).map_err(|e| e.to_string()))
}

/// The circuits take their parameters by name.
fn same_circuit(a: &Circuit, b: &Circuit) -> Result<(), String> {
    let names = |c: &Circuit| -> Vec<String> {
        c.hugr().get_metadata(c.parent(), METADATA_INPUT_PARAMETERS).and_then(|v| serde_json::from_value(v.clone()).ok()).unwrap_or_default()
    };
    let (x, y) = (names(a), names(b));
    let map: Option<Vec<usize>> = y.iter().map(|n| x.iter().position(|m| m == n)).collect();
    let Some(map) = map else { return Err(format!("parameters {x:?} became {y:?}")) };
    circ::equivalent_with(a, b, Some(&map))
}

fn rules(data: &[u8], binary: bool) -> Result<ECCRewriter, String> {
    quiet(|| {
        if binary {
            ECCRewriter::load_binary_io(data).map_err(|e| e.to_string())
        } else {
            let was = simfs::CWD.swap(false, Relaxed);
            let keep = std::mem::take(&mut disk().plan);
            disk().put("/simfs/.check.json", data.to_vec());
            let r = std::panic::catch_unwind(|| ECCRewriter::try_from_eccs_json_file("/simfs/.check.json")).map_err(|_| last_panic());
            disk().remove("/simfs/.check.json");
            disk().plan = keep;
            simfs::CWD.store(was, Relaxed);
            r?.map_err(|e| e.to_string())
        }
    })
}

/// What goes wrong during a run.
fn plan(t: &mut Tape, files: &[(&str, usize)]) -> (Plan, u32) {
    let mut p = Plan::default();
    match t.draw(5) {
        0 => p.short = 3,
        1 => p.eintr = 4,
        2 => {
            p.short = 3;
            p.eintr = 5;
        }
        _ => {}
    }
    if t.one_in(3) {
        return (p, 0);
    }
    let (f, size) = files[t.draw(files.len() as u32) as usize];
    p.only = if t.one_in(5) { None } else { Some(f.into()) };
    let at = match t.draw(4) {
        0 => size.saturating_sub(1 + t.draw(24) as usize),
        1 => t.draw(16) as usize,
        _ => t.draw(size as u32 + 1) as usize,
    };
    let err = [libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG][t.draw(4) as usize];
    let mut spawn = 0;
    match t.draw(9) {
        0 => p.open_err = Some((1 + t.draw(2), [libc::EACCES, libc::EMFILE, libc::EIO, libc::EROFS][t.draw(4) as usize])),
        1 => p.budget = Some(at),
        2 => p.write_err = Some((1 + t.draw(4), err)),
        3 => p.write_err_at = Some((at, err)),
        4 => p.read_err_at = Some((at, libc::EIO)),
        5 => {
            p.crash_at = Some(1 + t.draw(120) as u64);
            p.only = None;
        }
        6 => p.stdout_err_at = Some((t.draw(200) as usize, [libc::EPIPE, libc::ENOSPC, libc::EIO][t.draw(3) as usize])),
        7 => spawn = 1 + t.draw(4),
        _ => {
            p.sync_err = Some((1, libc::EIO));
            p.rename_err = Some((1, libc::ENOSPC));
        }
    }
    (p, spawn)
}

struct State {
    /// The rules in use, if the file is sound.
    circuits: BTreeMap<String, Option<Circuit>>,
    rules: BTreeMap<String, Option<Vec<u8>>>,
}

fn name(s: &str) -> String {
    format!("{ROOT}{s}")
}

fn c10(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    simfs::mount(Plan::default());
    disk().dirs = vec![name("d"), name("out.d")];
    let mut st = State { circuits: Default::default(), rules: Default::default() };
    quiet(|| {
        for (k, f) in ["in.json", "other.json", "d/in.json"].iter().enumerate() {
            let o = GenOpts {
                qubits: (1, 4),
                gates: (1, 12),
                set: [io::PYTKET, circ::NAM, circ::CLIFFT][t.draw(3) as usize],
                params: 2,
                arith: t.one_in(3),
                alloc: false,
                dfg_root: false,
                patterns: t.one_in(2),
            };
            let (c, _) = circ::gen(t, &o);
            let s = save_tk1_json_str(&c, EncodeOptions::new()).unwrap().into_bytes();
            let mut d = s.clone();
            if k > 0 && t.one_in(3) {
                d.truncate(t.draw(s.len() as u32) as usize);
            }
            let sound = d.len() == s.len();
            st.circuits.insert(f.to_string(), if sound { load(&d).ok() } else { None });
            disk().put(&name(f), d);
        }
        for (k, f) in ["rules.json", "r.more.json", "bad.json", "sets", "rules.txt"].iter().enumerate() {
            let mut d = procs::rule_file(t, 10);
            let sound = k < 2;
            if k == 2 {
                d.truncate(t.draw(d.len() as u32) as usize);
            }
            st.rules.insert(f.to_string(), if sound { Some(d.clone()) } else { None });
            disk().put(&name(f), d);
        }
        // what an earlier run may have left
        if t.one_in(3) {
            disk().put(&name("out.json"), vec![b'x'; 40_000]);
            disk().put(&name("matcher.rwr"), vec![7; 20_000]);
        }
        if t.one_in(5) {
            disk().put(&name("d/x.rwr"), vec![b'{'; 90]);
        }
    });
    let mut sample = vec![];
    let runs = 1 + t.weighted(&[3, 3, 2]);
    let mut compiled: Vec<String> = vec![];
    for n in 0..runs {
        let t = &mut ctx.w;
        let seed = t.draw(1 << 30) as u64 + 2;
        if t.one_in(3) && !(n > 0 && compiled.len() == n) {
            // compile-rewriter
            let good = !t.one_in(6);
            let input = if good { *t.pick(&["rules.json", "r.more.json"]) } else { *t.pick(&["bad.json", "sets", "rules.txt", "none.json", "d"]) };
            let output = *t.pick(&["", "m.rwr", "m", "m.tar.gz", "d", "d/x.rwr", "nodir/x.rwr", "matcher.rwr", "./d/", "out.d"]);
            let mut args: Vec<String> = vec!["-i".into(), input.into()];
            if !output.is_empty() {
                args.extend(["--output".into(), output.into()]);
            }
            let odd = t.one_in(12);
            if odd {
                args.push(t.pick(&["--what", "-i", "extra"]).to_string());
            }
            let target = match output {
                "" => "matcher.rwr".to_string(),
                "d" | "./d/" => "d/matcher.rwr".into(),
                "out.d" => "out.d/matcher.rwr".into(),
                o => std::path::Path::new(o).with_extension("rwr").to_string_lossy().into_owned(),
            };
            let size = 2000;
            let insize = disk().get(&name(input)).map_or(10, |d| d.len());
            let (plan, spawn) = plan(t, &[(&target, size), (input, insize)]);
            sample.push(format!("compile-rewriter {} with {plan:?} {spawn}", args.join(" ")));
            ctx.sample = Some(sample.join(" | "));
            let before = disk().get(&name(&target));
            let e = invoke("compile-rewriter", &args, seed, plan.clone(), spawn)?;
            absorb(&e);
            simrt::event("exit", || format!("compile-rewriter {} {}", e.code, e.calls));
            let sound = st.rules.get(input).is_some_and(|r| r.is_some());
            let writable = !output.starts_with("nodir");
            if e.code == 0 {
                if !sound {
                    return fail("success-on-bad-input", format!("compile-rewriter accepted {input}"));
                }
                if odd {
                    return fail("success-on-bad-args", format!("{args:?}"));
                }
                let Some(data) = disk().get(&name(&target)) else { return fail("output-missing", format!("compile-rewriter reports success and {target} does not exist; {}", e.out)) };
                let got = match rules(&data, true) {
                    Ok(r) => r,
                    Err(x) => return fail("output-incomplete", format!("compile-rewriter reports success and {target} ({} bytes) does not load: {x}", data.len())),
                };
                let want = match rules(st.rules[input].as_ref().unwrap(), false) {
                    Ok(r) => r,
                    Err(x) => return dev::harness(format!("rules: {x}")),
                };
                if let Err(x) = io::same_rewriter(&want, &got, &mut ctx.w) {
                    return fail("output-differs", format!("the compiled rewriter differs: {x}"));
                }
                st.rules.insert(target.clone(), st.rules[input].clone());
                compiled.push(target);
                ctx.nontrivial = true;
                probe("rewriter compiled");
            } else {
                probe("compile-rewriter failed");
                if sound && writable && !odd && e.fired.is_empty() && !e.faults.contains_key("thread_refused") && e.code != 137 {
                    return fail("spurious-failure", format!("compile-rewriter {args:?} failed with {} without a fault: {} {}", e.code, e.out, e.err));
                }
                if disk().get(&name(&target)) != before {
                    let data = disk().get(&name(&target)).unwrap_or_default();
                    let whole = rules(&data, true).is_ok();
                    st.rules.insert(target.clone(), whole.then(Vec::new));
                }
            }
        } else {
            let input = if t.one_in(20) { "none.json" } else { *t.pick(&["in.json", "in.json", "in.json", "other.json", "d/in.json"]) };
            let output = if t.one_in(10) { *t.pick(&["nodir/o.json", "d"]) } else { *t.pick(&["", "o.json", "d/o.json", "in.json", "out.json", "o"]) };
            let mut eccs: Vec<&str> = vec!["rules.json", "rules.json", "r.more.json"];
            if t.one_in(8) {
                eccs = vec!["bad.json", "sets", "rules.txt", "none.json", "none.rwr"];
            } else {
                eccs.extend(compiled.iter().map(|s| s.as_str()));
                eccs.extend(compiled.iter().map(|s| s.as_str()));
            }
            let eccs = t.pick(&eccs).to_string();
            let mut args: Vec<String> = vec!["-i".into(), input.into(), "--eccs".into(), eccs.clone()];
            if !output.is_empty() {
                args.extend(["-o".into(), output.into()]);
            }
            if t.one_in(3) {
                args.extend(["-l".into(), t.pick(&["log", "d/log.txt"]).to_string()]);
            }
            let badlog = t.one_in(20);
            if badlog {
                args.retain(|a| a != "-l" && a != "log" && a != "d/log.txt");
                args.extend(["-l".into(), "nodir/log".into()]);
            }
            let bounded = !t.one_in(10);
            if bounded {
                args.push(format!("-c{}", t.draw(25)));
            }
            if !bounded || t.one_in(4) {
                args.extend(["-t".into(), t.draw(4).to_string()]);
            }
            if t.one_in(4) {
                args.extend(["-p".into(), t.draw(3).to_string()]);
            }
            let threads = [1, 1, 2, 3, 4][t.draw(5) as usize];
            if threads > 1 || t.one_in(3) {
                args.push(format!("-j{threads}"));
            }
            if t.one_in(3) {
                args.push("--split-circ".into());
            }
            if t.one_in(2) {
                args.extend(["-q".into(), [100, 1, 2, 7, 30][t.draw(5) as usize].to_string()]);
            }
            if t.one_in(3) {
                args.push("--rewrite-tracing".into());
            }
            let odd = t.one_in(15);
            if odd {
                args.push(t.pick(&["--what", "-j0", "-qx", "extra"]).to_string());
            }
            let target = if output.is_empty() { "out.json" } else { output };
            let size = |f: &str| disk().get(&name(f)).map_or(500, |d| d.len());
            let (insize, ecsize) = (size(input), size(&eccs));
            let (plan, spawn) = plan(t, &[(target, insize.min(3000)), (target, insize.min(3000)), (input, insize), (&eccs, ecsize), ("best_circs.csv", 100), ("log", 300)]);
            sample.push(format!("badger-optimiser {} with {plan:?} {spawn}", args.join(" ")));
            ctx.sample = Some(sample.join(" | "));
            let before = disk().get(&name(target));
            let e = invoke("badger-optimiser", &args, seed, plan.clone(), spawn)?;
            absorb(&e);
            simrt::event("exit", || format!("badger-optimiser {} {}", e.code, e.calls));
            let sound = st.circuits.get(input).is_some_and(|c| c.is_some())
                && st.rules.get(&eccs).is_some_and(|r| r.is_some())
                && (eccs.ends_with(".json") || eccs.ends_with(".rwr"));
            let writable = !output.starts_with("nodir") && output != "d" && !badlog;
            if e.code == 0 {
                if !sound {
                    return fail("success-on-bad-input", format!("badger-optimiser accepted {input} and {eccs}: {}", e.out));
                }
                if odd {
                    return fail("success-on-bad-args", format!("{args:?}"));
                }
                let Some(data) = disk().get(&name(target)) else { return fail("output-missing", format!("badger-optimiser reports success and {target} does not exist")) };
                if let Err(x) = serde_json::from_slice::<SerialCircuit>(&data) {
                    return fail("output-incomplete", format!("badger-optimiser reports success and {target} ({} bytes) is no circuit: {x}", data.len()));
                }
                let got = match load(&data) {
                    Ok(c) => c,
                    Err(x) => return fail("output-incomplete", format!("badger-optimiser reports success and {target} does not load: {x}")),
                };
                let want = st.circuits[input].as_ref().unwrap();
                if let Err(x) = quiet(|| same_circuit(want, &got)) {
                    return fail("output-differs", format!("badger-optimiser {}: {x}", args.join(" ")));
                }
                st.circuits.insert(target.into(), Some(got));
                ctx.nontrivial = true;
                probe("circuit optimised");
            } else {
                probe("badger-optimiser failed");
                if sound && writable && !odd && e.fired.is_empty() && !e.faults.contains_key("thread_refused") && e.code != 137 {
                    return fail("spurious-failure", format!("badger-optimiser {} failed with {} without a fault: {} {}", args.join(" "), e.code, e.out, e.err));
                }
                if disk().get(&name(target)) != before {
                    let data = disk().get(&name(target)).unwrap_or_default();
                    st.circuits.insert(target.into(), load(&data).ok());
                }
            }
        }
        if n + 1 == runs && ctx.nontrivial {
            probe("ends well");
        }
    }
    Ok(())
}

/// Only the disk survives a process.
fn absorb(e: &End) {
    if e.code == 134 && e.files.is_empty() {
        return;
    }
    quiet(|| {
        let d = disk();
        for f in d.list() {
            d.remove(&f);
        }
        for (f, data) in &e.files {
            d.put(f, unhex(data));
        }
    });
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        title: "command line tools",
        level: "exploration",
        rule: "one to three runs of the tools on one disk, each a process whose exit status is compared with what is on the disk afterwards; distinct by event hash",
        components: "real: main functions, argument parsing, tracing setup and log writer thread of badger-optimiser and compile-rewriter, the optimiser with its threads, rule compilation, pytket reading and writing; simulated: processes, command lines, exit, disk, standard output, OS scheduler, clock, hash seeds",
        assumptions: &["the tools are built as libraries, without jemalloc", "a crashed process loses no data it has written (process crash, not power loss)"],
        preload: || {},
        scenario: c10,
        quick_runs: 1500,
        quick_secs: 60,
        thorough_secs: 600,
        max_decisions: 1_000_000,
        plain_sched: false,
    }]
}
