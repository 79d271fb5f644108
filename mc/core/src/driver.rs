//! Command line: runs the scenarios of a property in parallel worker processes and reports.
use crate::explore::*;
use crate::scen;
use crate::world::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, flags: i32) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn worker(t: &Target, prop: &str, thorough: bool, n: usize, hard: u64, soft: u64) {
    let mut out = unsafe {
        let keep = dup(1);
        let null = open(b"/dev/null\0".as_ptr(), 1);
        dup2(null, 1);
        std::fs::File::from_raw_fd(keep)
    };
    crate::svm::install((t.program)(), t.process);
    let sc = scen::scenarios(prop, thorough).into_iter().nth(n).expect("scenario index");
    // an instruction that never returns is reported like any other broken outcome
    let hang = if thorough { 120 } else { 60 };
    {
        let mut o2 = out.try_clone().unwrap();
        std::thread::spawn(move || {
            let mut last = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let h = HEARTBEAT.load(Ordering::Relaxed);
                if h != last.0 {
                    last = (h, Instant::now());
                } else if h > 0 && last.1.elapsed().as_secs() > hang {
                    let _ = writeln!(o2, "V\tP\t{}\nV\tD\tHang: an instruction does not terminate\nEND", where_now().replace(['\n', '\t'], " "));
                    std::process::exit(0);
                }
            }
        });
    }
    let now = Instant::now();
    let r = run(t, prop, &sc, now + Duration::from_secs(hard), (soft > 0).then(|| now + Duration::from_secs(soft)));
    HEARTBEAT.store(0, Ordering::Relaxed);
    let s = &r.stats;
    let mut o = String::new();
    for (k, v) in [
        ("states", s.states),
        ("transitions", s.transitions),
        ("accepted", s.accepted),
        ("rejected", s.rejected),
        ("setup", s.setup),
        ("setup_rejected", s.setup_rejected),
        ("depth", s.depth),
        ("truncated", s.truncated as u64),
        ("complete", s.complete),
        ("beyond", s.beyond),
        ("epilogue", s.epilogue),
        ("wound", s.wound),
        ("epilogue_ok", s.epilogue_ok),
    ] {
        o.push_str(&format!("S\t{}\t{}\n", k, v));
    }
    for (k, v) in &s.facts {
        o.push_str(&format!("F\t{}\t{}\n", k, v));
    }
    for (k, v) in &s.ops {
        o.push_str(&format!("O\t{}\t{}\t{}\n", k, v.0, v.1));
    }
    for (k, v) in &s.foreign {
        o.push_str(&format!("X\t{}\t{}\n", k, v));
    }
    if !s.foreign_example.is_empty() {
        o.push_str(&format!("E\t{}\n", s.foreign_example.replace(['\n', '\t'], " ")));
    }
    if !s.sample.is_empty() {
        o.push_str(&format!("T\t{}\n", s.sample.replace(['\n', '\t'], " ")));
    }
    if !s.note.is_empty() {
        o.push_str(&format!("N\t{}\n", s.note.replace(['\n', '\t'], " ")));
    }
    if let Some(v) = &r.viol {
        for p in &v.path {
            o.push_str(&format!("V\tP\t{}\n", p.replace(['\n', '\t'], " ")));
        }
        o.push_str(&format!("V\tI\t{}\n", v.indices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        for d in &v.divs {
            o.push_str(&format!("V\tD\t{:?}: {}\n", d.cat, d.msg.replace(['\n', '\t'], " ")));
        }
    }
    o.push_str("END\n");
    let _ = out.write_all(o.as_bytes());
    let _ = out.flush();
    std::process::exit(0);
}

#[derive(Default, Clone)]
struct Out {
    name: String,
    s: BTreeMap<String, u64>,
    f: BTreeMap<String, u64>,
    ops: BTreeMap<String, (u64, u64)>,
    foreign: BTreeMap<String, u64>,
    notes: Vec<String>,
    sample: String,
    path: Vec<String>,
    idx: String,
    divs: Vec<String>,
    wall: f64,
    done: bool,
}

pub fn main(t: &Target) {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: mc check ID [--thorough] [--root DIR] | mc list ID | mc replay FILE");
        std::process::exit(2)
    };
    let has = |x: &str| a.iter().any(|y| y == x);
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(t, &a[2], a[3] == "1", a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap()),
        Some("list") => {
            for (i, s) in scen::scenarios(a.get(2).unwrap_or(&"C01".into()), has("--thorough")).iter().enumerate() {
                println!("{} {}", i, s.name);
            }
        }
        Some("one") => {
            // developer aid: one scenario in this process
            crate::svm::install((t.program)(), t.process);
            let sc = scen::scenarios(&a[2], has("--thorough")).into_iter().find(|s| s.name == a[3] || a[3].parse::<usize>().is_ok()).unwrap();
            let t0 = Instant::now();
            let more = a.iter().position(|x| x == "--deeper").map(|i| Instant::now() + Duration::from_secs(a[i + 1].parse().unwrap()));
            let r = run(t, &a[2], &sc, Instant::now() + Duration::from_secs(3000), more);
            eprintln!("{:?} {:.2}s", r.stats, t0.elapsed().as_secs_f64());
            if let Some(v) = r.viol {
                eprintln!("{:#?}", v);
            }
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string();
            crate::svm::install((t.program)(), t.process);
            let sc = scen::scenarios(&get("property"), get("tier") == "thorough").into_iter().find(|s| s.name == get("scenario")).expect("scenario");
            let idx: Vec<i64> = get("indices").split(',').filter_map(|x| x.parse().ok()).collect();
            let hit = replay(t, &sc, &idx);
            std::process::exit(if hit { 1 } else { 0 });
        }
        Some("check") => {
            if a.len() < 3 {
                usage()
            }
            let root = a.iter().position(|x| x == "--root").map(|i| a[i + 1].clone()).unwrap_or("/verif".into());
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
            std::process::exit(check(&a[2], has("--thorough"), &root, has("-v"), only, !has("--shallow")));
        }
        _ => usage(),
    }
}

fn parse(o: &mut Out, txt: &str) {
    for l in txt.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "S" => {
                o.s.insert(p[1].into(), p[2].parse().unwrap_or(0));
            }
            "F" => {
                o.f.insert(p[1].into(), p[2].parse().unwrap_or(0));
            }
            "O" => {
                o.ops.insert(p[1].into(), (p[2].parse().unwrap_or(0), p[3].parse().unwrap_or(0)));
            }
            "X" => {
                o.foreign.insert(p[1].into(), p[2].parse().unwrap_or(0));
            }
            "E" | "N" => o.notes.push(p[1].into()),
            "V" => match p[1] {
                "P" => o.path.push(p[2].into()),
                "I" => o.idx = p[2].into(),
                _ => o.divs.push(p[2].into()),
            },
            "T" => o.sample = p[1].into(),
            "END" => o.done = true,
            _ => {}
        }
    }
}

/// seconds after which a thorough check starts no further optional layer
const DEEPEN_UNTIL: u64 = 540;

fn check(prop: &str, thorough: bool, root: &str, verbose: bool, only: Option<String>, deepen: bool) -> i32 {
    let t0 = Instant::now();
    let names: Vec<String> = scen::scenarios(prop, thorough).iter().map(|s| s.name.clone()).collect();
    if names.is_empty() {
        eprintln!("no scenarios for {}", prop);
        return 2;
    }
    {
        let mut n = names.clone();
        n.sort();
        if n.windows(2).any(|w| w[0] == w[1]) {
            eprintln!("duplicate scenario names");
            return 2;
        }
    }
    let exe = std::env::current_exe().unwrap();
    let queue = Arc::new(Mutex::new((0..names.len()).filter(|i| only.as_ref().map_or(true, |o| names[*i].contains(o.as_str()))).collect::<std::collections::VecDeque<usize>>()));
    let results: Arc<Mutex<BTreeMap<usize, Out>>> = Default::default();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let cores = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let mut hs = vec![];
    for _ in 0..cores {
        let (queue, results, stop, exe, prop, names) = (queue.clone(), results.clone(), stop.clone(), exe.clone(), prop.to_string(), names.clone());
        hs.push(std::thread::spawn(move || loop {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let (n, left) = {
                let mut q = queue.lock().unwrap();
                match q.pop_front() {
                    Some(n) => (n, q.len() as u64 + 1),
                    None => break,
                }
            };
            // time: mandatory layers may use what the check has left; optional ones (thorough only) share it evenly
            let gone = t0.elapsed().as_secs();
            let hard = if thorough { 840u64.saturating_sub(gone) } else { 400u64.saturating_sub(gone) }.max(5);
            let soft = if thorough && deepen { (DEEPEN_UNTIL.saturating_sub(gone) * cores as u64 / left).min(DEEPEN_UNTIL.saturating_sub(gone)) } else { 0 };
            let w0 = Instant::now();
            let mut o = Out { name: names[n].clone(), ..Default::default() };
            let c = std::process::Command::new(&exe)
                .args(["worker", &prop, if thorough { "1" } else { "0" }, &n.to_string(), &hard.to_string(), &soft.to_string()])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn();
            if let Ok(mut c) = c {
                let mut err = c.stderr.take().unwrap();
                let eh = std::thread::spawn(move || {
                    let mut s = String::new();
                    let _ = err.read_to_string(&mut s);
                    s
                });
                let mut s = String::new();
                let _ = c.stdout.take().unwrap().read_to_string(&mut s);
                let st = c.wait();
                let e = eh.join().unwrap_or_default();
                parse(&mut o, &s);
                if !o.done {
                    let tail: String = e.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                    o.notes.push(format!("worker ended early: {:?} {}", st, tail));
                    // the process executing the code under test died (abort, stack overflow, memory fault)
                    use std::os::unix::process::ExitStatusExt;
                    if let Ok(x) = st {
                        if matches!(x.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11)) {
                            o.divs.push(format!("Crash: the program under test killed its process: {:?} {}", x, tail.replace('\n', " ")));
                        }
                    }
                }
            }
            o.wall = w0.elapsed().as_secs_f64();
            if !o.divs.is_empty() {
                stop.store(true, Ordering::Relaxed);
            }
            results.lock().unwrap().insert(n, o);
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let results = results.lock().unwrap().clone();
    let tier = if thorough { "thorough" } else { "quick" };
    let sum = |k: &str| results.values().map(|o| o.s.get(k).copied().unwrap_or(0)).sum::<u64>();
    let mut facts: BTreeMap<String, u64> = BTreeMap::new();
    let mut ops: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    for o in results.values() {
        for (k, v) in &o.f {
            *facts.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.ops {
            let e = ops.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.foreign {
            *foreign.entry(k.clone()).or_default() += v;
        }
        if verbose {
            eprintln!("{:<34} {:>8.2}s states {:>7} trans {:>8} ok {:>8} depth {}+{} setup {}({} rej) trunc {} after {} ({} ok) wound up {} foreign {:?} {}", o.name, o.wall, o.s.get("states").unwrap_or(&0), o.s.get("transitions").unwrap_or(&0), o.s.get("accepted").unwrap_or(&0), o.s.get("complete").unwrap_or(&0), o.s.get("beyond").unwrap_or(&0), o.s.get("setup").unwrap_or(&0), o.s.get("setup_rejected").unwrap_or(&0), o.s.get("truncated").unwrap_or(&0), o.s.get("epilogue").unwrap_or(&0), o.s.get("epilogue_ok").unwrap_or(&0), o.s.get("wound").unwrap_or(&0), o.foreign, o.notes.join(" | "));
        }
    }
    // known findings
    let known = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut viols: Vec<&Out> = vec![];
    for o in results.values() {
        if o.divs.is_empty() {
            continue;
        }
        let hit = known.lines().filter_map(|l| l.strip_prefix("finding: ")).find(|l| {
            let mut f = l.splitn(3, " | ");
            f.next() == Some(&format!("property={}", prop)) && f.next().map_or(false, |x| o.path.last().map_or(false, |p| p == x)) && f.next().map_or(false, |x| o.divs.iter().all(|d| d.contains(x)))
        });
        match hit {
            Some(l) => println!("KNOWN-FINDING: {}", l),
            None => viols.push(o),
        }
    }
    let broken: Vec<&Out> = results.values().filter(|o| !o.done && o.divs.is_empty()).collect();
    let per = results
        .values()
        .map(|o| {
            let g = |k: &str| o.s.get(k).copied().unwrap_or(0);
            format!("\"{}: depth {}, {} states, {} transitions{}\"", esc(&o.name), g("complete"), g("states"), g("transitions"), if g("truncated") > 0 { ", cut short".into() } else if g("beyond") > 0 { format!(", {} states beyond", g("beyond")) } else { String::new() })
        })
        .collect::<Vec<_>>()
        .join(",");
    let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let opj = ops.iter().map(|(k, v)| format!("\"{}\":{{\"accepted\":{},\"rejected\":{}}}", esc(k), v.0, v.1)).collect::<Vec<_>>().join(",");
    let samples = results.values().filter(|o| !o.sample.is_empty()).step_by((results.len() / 5).max(1)).take(6).map(|o| format!("\"{}: {}\"", esc(&o.name), esc(&o.sample.chars().take(500).collect::<String>()))).collect::<Vec<_>>().join(",");
    // a trace is a set-up plus a sequence of actions that is not continued: each was run on the implementation step by step
    let traces = sum("transitions").saturating_sub(sum("setup")).saturating_sub(sum("epilogue")).saturating_sub(sum("states").saturating_sub(results.len() as u64));
    let exhaustive = sum("truncated") == 0 && broken.is_empty() && results.len() == names.len();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"accepted\":{},\"rejected\":{},\"setup_steps\":{},\"steps_of_epilogues\":{},\"steps_of_epilogues_accepted\":{},\"complete_wind_downs\":{},\"exhaustive\":{},\"exhaustive_within\":\"every action sequence of each scenario's alphabet up to its depth, with every probe action from every reached state; 'beyond' counts states of the next, incomplete layer\",\"scenarios\":[{}],\"situations\":{{{}}},\"operations\":{{{}}},\"divergences_of_other_properties\":{{{}}},\"samples\":[{}]}},\"assumptions\":[\"single-threaded hand-built runtime: account privileges, CPI rules, rent and rollback as on chain; compute and transaction-size limits not modelled\",\"SPL token processor and system program are trusted\",\"expectations come from the independent reference model in /verif/mc/core/src/spec.rs\"],\"wall_s\":{:.2},\"violations\":{}}}\n",
        prop, tier, seed, sum("states"), sum("transitions"), traces, sum("accepted"), sum("rejected"), sum("setup"), sum("epilogue"), sum("epilogue_ok"), sum("wound"), exhaustive, per, kv(&facts), opj, kv(&foreign), samples, t0.elapsed().as_secs_f64(), viols.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, prop), ev);
    println!(
        "{} {}: {} scenarios, {} states, {} transitions ({} accepted, {} rejected), {:.1}s{}",
        prop,
        tier,
        results.len(),
        sum("states"),
        sum("transitions"),
        sum("accepted"),
        sum("rejected"),
        t0.elapsed().as_secs_f64(),
        if exhaustive { "" } else { ", NOT exhaustive" }
    );
    if verbose {
        eprintln!("facts {:?}\nops {:?}\nforeign {:?}", facts, ops, foreign);
    }
    if !viols.is_empty() {
        for o in &viols {
            let dir = format!("{}/evidence/replays", root);
            let _ = std::fs::create_dir_all(&dir);
            let name: String = o.name.chars().map(|c| if c.is_alphanumeric() { c } else { '-' }).collect();
            let f = format!("{}/{}-{}.txt", dir, prop, name);
            let mut s = format!("property: {}\ntier: {}\nscenario: {}\nindices: {}\n", prop, tier, o.name, o.idx);
            for d in &o.divs {
                s.push_str(&format!("violated: {}\n", d));
                println!("  {}: {}", o.name, d);
            }
            for (i, p) in o.path.iter().enumerate() {
                s.push_str(&format!("step {}: {}\n", i, p));
            }
            if let Some(p) = o.path.last() {
                println!("  after {} steps, last: {}", o.path.len(), p);
            }
            let _ = std::fs::write(&f, s);
            println!("VIOLATION property={} replay={}", prop, f);
        }
        return 1;
    }
    if !broken.is_empty() {
        for b in broken {
            eprintln!("scenario {} gave no result: {}", b.name, b.notes.join(" "));
        }
        return 3;
    }
    0
}
