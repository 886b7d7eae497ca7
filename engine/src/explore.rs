//! Depth-first exploration over all paths of the entry points, spread over processes.

use crate::exec::*;
use crate::ll::Module;
use crate::term::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    fn getpid() -> c_int;
}

pub struct Shared {
    tokens: AtomicI64,
    stop: AtomicI64,
    fails: AtomicI64,
}

#[derive(Default, Clone)]
pub struct EntryRes {
    ends: BTreeMap<&'static str, u64>,
    covers: BTreeMap<u32, u64>,
    fails: Vec<(u64, String, String, Vec<u8>)>, // hash, kind, message, witness
    nfails: u64,
    samples: Vec<(u64, String, String)>, // hash, end, line
    forks: u64,
    max_inputs: usize,
    max_steps: u64,
    internal: Vec<String>,
    unexplored: u64,
    cons_paths: u64,
}

pub struct Opts {
    ll: String,
    out: String,
    jobs: i64,
    seed: u64,
    time: f64,
    samples: usize,
    cap: u64,
    warm: String,
    maxfails: i64,
    trace: bool,
    entries: Vec<String>,
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    if s.is_empty() {
        "-".into()
    } else {
        s
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Worker<'a> {
    x: Exec,
    o: &'a Opts,
    sh: &'static Shared,
    res: Vec<EntryRes>,
    work: Vec<State>,
    t0: Instant,
    last: Instant,
    root: c_int,
    children: u64,
    dir: String,
}

impl<'a> Worker<'a> {
    fn witness(&mut self, st: &State) -> Vec<u8> {
        let seed = self.o.seed;
        let mut n = 0u64;
        self.x.s.model(&mut self.x.p, &st.cons, &st.doms, &mut |d| {
            n += 1;
            let k = set_len(d);
            let h = mix(mix(seed, d[0] ^ d[1].rotate_left(13) ^ d[2].rotate_left(29) ^ d[3].rotate_left(43)), n);
            // prefer printable values where there are any
            let pr: Set = set_and(d, &[!0u64 << 32, !(1u64 << 63), 0, 0]);
            let (d, k) = if h & 3 != 0 && !set_empty(&pr) { (pr, set_len(&pr)) } else { (*d, k) };
            let r = set_iter(&d).nth(((h >> 8) % k as u64) as usize).unwrap();
            r
        })
    }

    fn leaf(&mut self, st: &State, e: End) {
        let kind = match &e {
            End::Done => "done",
            End::Discard => "discard",
            End::Fail(_) => "fail",
            End::Panic(_) => "panic",
            End::Exit(_) => "exit",
            End::Cap => "cap",
            End::Time => "time",
            End::Internal(_) => "internal",
        };
        if e == End::Time {
            self.res[st.entry].unexplored += 1;
            return;
        }
        let w = self.witness(st);
        if self.x.s.unknown {
            self.x.s.unknown = false;
            self.res[st.entry].unexplored += 1;
            return;
        }
        *self.res[st.entry].ends.entry(kind).or_insert(0) += 1;
        let r = &mut self.res[st.entry];
        r.max_inputs = r.max_inputs.max(st.doms.len());
        r.max_steps = r.max_steps.max(st.steps);
        if !st.cons.is_empty() {
            r.cons_paths += 1;
        }
        let mut h = mix(self.o.seed, st.entry as u64);
        for b in &w {
            h = mix(h, *b as u64 + 1);
        }
        if let End::Internal(m) = &e {
            if r.internal.len() < 5 {
                let mut m = m.clone();
                let mut at = self.x.m.funcs[st.cur.fi].pretty.clone();
                for f in st.up.iter().rev().take(12) {
                    at += " < ";
                    at += &self.x.m.funcs[f.fi].pretty;
                }
                m += &format!(" [witness {}] in {}", hex(&w), at);
                r.internal.push(m);
            }
            return;
        }
        if e != End::Discard {
            for c in &st.covers {
                *r.covers.entry(*c).or_insert(0) += 1;
            }
        }
        let bad = match &e {
            End::Fail(m) => Some(m.clone()),
            End::Panic(m) => {
                let mut m = format!("panic at {}", m);
                if self.o.trace {
                    for f in st.up.iter().rev().take(8) {
                        m += " < ";
                        m += &self.x.m.funcs[f.fi].pretty;
                    }
                }
                Some(m)
            }
            End::Cap => Some("instruction cap".to_string()),
            _ => None,
        };
        if let Some(m) = bad {
            r.nfails += 1;
            self.sh.fails.fetch_add(1, Ordering::SeqCst);
            let same = r.fails.iter().filter(|f| f.2 == m).count();
            if same < 6 {
                r.fails.push((h, kind.to_string(), m, w));
            } else if let Some((i, mx)) =
                r.fails.iter().enumerate().filter(|(_, f)| f.2 == m).map(|(i, f)| (i, f.0)).max_by_key(|x| x.1)
            {
                if mx > h {
                    r.fails[i] = (h, kind.to_string(), m, w);
                }
            }
            return;
        }
        // sample
        if self.o.samples > 0 {
            let k = self.o.samples;
            if r.samples.len() < k || r.samples.last().unwrap().0 > h {
                let mut line = hex(&w);
                line.push(' ');
                let asg = |v: u32| w[v as usize];
                let mut first = true;
                for (t, v) in &st.notes {
                    let x = if v.is_c() { v.c } else { self.x.p.eval(v.id(), &asg) as u64 };
                    if !first {
                        line.push(',');
                    }
                    first = false;
                    write!(line, "{:x}={:x}", t, x).unwrap();
                }
                if first {
                    line.push('-');
                }
                let ob: Vec<u8> = st
                    .out
                    .iter()
                    .map(|v| if v.is_c() { v.c as u8 } else { self.x.p.eval(v.id(), &asg) as u8 })
                    .collect();
                line.push(' ');
                line += &hex(&ob);
                let end = match &e {
                    End::Exit(c) => format!("exit{}", c),
                    _ => kind.to_string(),
                };
                let p = r.samples.partition_point(|s| s.0 <= h);
                r.samples.insert(p, (h, end, line));
                r.samples.truncate(k);
            }
        }
    }

    fn over(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.o.time
            || self.sh.stop.load(Ordering::Relaxed) != 0
            || self.sh.fails.load(Ordering::Relaxed) >= self.o.maxfails
    }

    fn explore(&mut self) {
        while let Some(mut st) = self.work.pop() {
            loop {
                if self.over() {
                    self.res[st.entry].unexplored += 1 + self.work.len() as u64;
                    self.work.clear();
                    return;
                }
                match self.x.run(&mut st) {
                    E::Fork(t) => {
                        let mut other = st.clone();
                        self.x.constrain(&mut other, t, false);
                        self.x.constrain(&mut st, t, true);
                        other.forks += 1;
                        st.forks += 1;
                        self.x.stats.forks += 1;
                        self.res[st.entry].forks += 1;
                        self.work.push(other);
                        self.donate();
                    }
                    E::End(e) => {
                        self.leaf(&st, e);
                        break;
                    }
                }
            }
        }
    }

    /// hand the oldest pending state to a new process; true in the child
    fn donate(&mut self) {
        if self.work.is_empty() || self.last.elapsed().as_millis() < 4 {
            return;
        }
        if self.sh.tokens.load(Ordering::Relaxed) <= 0 {
            return;
        }
        if self.sh.tokens.fetch_sub(1, Ordering::SeqCst) <= 0 {
            self.sh.tokens.fetch_add(1, Ordering::SeqCst);
            return;
        }
        self.last = Instant::now();
        let pid = unsafe { fork() };
        if pid < 0 {
            self.sh.tokens.fetch_add(1, Ordering::SeqCst);
            return;
        }
        if pid == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0); // die with the parent
            }
            let st = self.work.swap_remove(0);
            self.work = vec![st];
            self.res = vec![EntryRes::default(); self.o.entries.len()];
            self.x.stats = Default::default();
            self.x.s.stats = Default::default();
            self.children = 0;
            // continue in this process; `finish_child` ends it
            self.explore();
            self.finish_child();
        }
        self.children += 1;
        self.work.remove(0);

    }

    fn finish_child(&mut self) -> ! {
        self.write();
        self.sh.tokens.fetch_add(1, Ordering::SeqCst);
        // wait for own children so that none outlives its parent
        let bad = self.wait();
        unsafe { _exit(if bad { 4 } else { 0 }) }
    }

    fn wait(&mut self) -> bool {
        let mut bad = false;
        while self.children > 0 {
            let mut s: c_int = 0;
            let p = unsafe { waitpid(-1, &mut s, 0) };
            if p < 0 {
                break;
            }
            self.children -= 1;
            if s != 0 {
                bad = true;
                eprintln!("worker {} ended with status {:#x}", p, s);
                self.sh.stop.store(1, Ordering::SeqCst);
            }
        }
        bad
    }

    fn write(&mut self) {
        let mut o = String::new();
        for (i, r) in self.res.iter().enumerate() {
            for (k, v) in &r.ends {
                writeln!(o, "end {} {} {}", i, k, v).unwrap();
            }
            for (k, v) in &r.covers {
                writeln!(o, "cover {} {} {}", i, k, v).unwrap();
            }
            for (h, k, m, w) in &r.fails {
                writeln!(o, "fail {} {} {} {} {}", i, h, k, hex(w), m.replace('\n', " ")).unwrap();
            }
            for (h, e, l) in &r.samples {
                writeln!(o, "sample {} {} {} {}", i, h, e, l).unwrap();
            }
            for m in &r.internal {
                writeln!(o, "internal {} {}", i, m.replace('\n', " ")).unwrap();
            }
            if r.forks > 0 {
                writeln!(o, "sum {} forks {}", i, r.forks).unwrap();
            }
            if r.unexplored > 0 {
                writeln!(o, "sum {} unexplored {}", i, r.unexplored).unwrap();
            }
            if r.nfails > 0 {
                writeln!(o, "sum {} nfails {}", i, r.nfails).unwrap();
            }
            if r.cons_paths > 0 {
                writeln!(o, "sum {} cons_paths {}", i, r.cons_paths).unwrap();
            }
            writeln!(o, "max {} inputs {}", i, r.max_inputs).unwrap();
            writeln!(o, "max {} steps {}", i, r.max_steps).unwrap();
        }
        let s = &self.x.stats;
        let z = &self.x.s.stats;
        for (k, v) in [
            ("steps", s.steps),
            ("forks", s.forks),
            ("calls", s.calls),
            ("concretised", s.concretised),
            ("table_loads", s.table_loads),
            ("queries", z.queries),
            ("memo_hits", z.memo_hits),
            ("sat", z.sat),
            ("unsat", z.unsat),
            ("multi", z.multi),
            ("solver_nanos", z.nanos),
            ("terms", self.x.p.nodes.len() as u64),
            ("processes", 1),
        ] {
            writeln!(o, "stat {} {}", k, v).unwrap();
        }
        for (i, e) in self.x.executed.iter().enumerate() {
            if *e {
                writeln!(o, "fn {}", i).unwrap();
            }
        }
        let f = format!("{}/{}.txt", self.dir, unsafe { getpid() });
        std::fs::write(f, o).unwrap();
    }
}

fn opts() -> Opts {
    let mut o = Opts {
        ll: String::new(),
        out: String::new(),
        jobs: 8,
        seed: 1,
        time: 1e9,
        samples: 50,
        cap: 60_000_000,
        warm: String::new(),
        maxfails: 200,
        trace: false,
        entries: vec![],
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("option value");
        match x.as_str() {
            "--ll" => o.ll = v(),
            "--out" => o.out = v(),
            "--jobs" => o.jobs = v().parse().unwrap(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--cap" => o.cap = v().parse().unwrap(),
            "--warm" => o.warm = v(),
            "--maxfails" => o.maxfails = v().parse().unwrap(),
            "--trace" => o.trace = true,
            _ => o.entries.push(x),
        }
    }
    o
}

pub fn main() {
    let o = opts();
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&o.ll).expect("read IR");
    let ir_bytes = text.len();
    let m: &'static Module = Box::leak(Box::new(Module::load(text)));
    let mut x = Exec::new(m);
    x.cap = o.cap;
    let mut mem = x.init_mem();
    let t_load = t0.elapsed().as_secs_f64();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut Shared;
        &*p
    };
    sh.tokens.store(o.jobs - 1, Ordering::SeqCst);
    let root = unsafe { getpid() };
    let dir = format!("{}.parts", o.out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();

    if !o.warm.is_empty() {
        let mut st = x.start(mem, 0, &o.warm);
        match x.run(&mut st) {
            E::End(End::Done) => {}
            E::End(e) => {
                eprintln!("warm-up: {:?} after {} steps", e, st.steps);
                let mut at = x.m.funcs[st.cur.fi].pretty.clone();
                for f in st.up.iter().rev().take(12) {
                    at += " < ";
                    at += &x.m.funcs[f.fi].pretty;
                }
                eprintln!("in {}", at);
                std::process::exit(2);
            }
            E::Fork(_) => {
                eprintln!("warm-up forked");
                std::process::exit(2);
            }
        }
        mem = st.mem;
    }
    x.deadline = Some(t0 + std::time::Duration::from_secs_f64(o.time.min(1e7)));
    let warm_steps = x.stats.steps;
    x.stats = Default::default();
    let mut work = Vec::new();
    for (i, e) in o.entries.iter().enumerate().rev() {
        work.push(x.start(mem.clone(), i, e));
    }
    drop(mem);
    let res = vec![EntryRes::default(); o.entries.len()];
    let mut w = Worker { x, o: &o, sh, res, work, t0, last: Instant::now(), root, children: 0, dir: dir.clone() };
    w.explore();
    if unsafe { getpid() } != w.root {
        w.finish_child();
    }
    w.write();
    w.sh.tokens.fetch_add(1, Ordering::SeqCst);
    let bad = w.wait();

    // aggregate
    let n = o.entries.len();
    let mut ends = vec![BTreeMap::<String, u64>::new(); n];
    let mut covers = vec![BTreeMap::<u32, u64>::new(); n];
    let mut sums = vec![BTreeMap::<String, u64>::new(); n];
    let mut maxs = vec![BTreeMap::<String, u64>::new(); n];
    let mut fails = vec![Vec::<(u64, String)>::new(); n];
    let mut samples = vec![Vec::<(u64, String)>::new(); n];
    let mut internal: Vec<String> = Vec::new();
    let mut stats = BTreeMap::<String, u64>::new();
    let mut fns = vec![false; m.funcs.len()];
    for f in std::fs::read_dir(&dir).unwrap() {
        let t = std::fs::read_to_string(f.unwrap().path()).unwrap();
        for l in t.lines() {
            let mut p = l.splitn(3, ' ');
            let k = p.next().unwrap();
            let a = p.next().unwrap();
            let rest = p.next().unwrap_or("");
            match k {
                "stat" => *stats.entry(a.to_string()).or_insert(0) += rest.parse::<u64>().unwrap(),
                "fn" => fns[a.parse::<usize>().unwrap()] = true,
                _ => {
                    let i: usize = a.parse().unwrap();
                    match k {
                        "end" | "cover" | "sum" | "max" => {
                            let (x, y) = rest.split_once(' ').unwrap();
                            let y: u64 = y.parse().unwrap();
                            match k {
                                "end" => *ends[i].entry(x.to_string()).or_insert(0) += y,
                                "cover" => *covers[i].entry(x.parse().unwrap()).or_insert(0) += y,
                                "sum" => *sums[i].entry(x.to_string()).or_insert(0) += y,
                                _ => {
                                    let e = maxs[i].entry(x.to_string()).or_insert(0);
                                    *e = (*e).max(y)
                                }
                            }
                        }
                        "fail" | "sample" => {
                            let (h, r) = rest.split_once(' ').unwrap();
                            let v = if k == "fail" { &mut fails[i] } else { &mut samples[i] };
                            v.push((h.parse().unwrap(), r.to_string()));
                        }
                        "internal" => internal.push(format!("{}: {}", o.entries[i], rest)),
                        _ => {}
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut j = String::from("{\n");
    writeln!(j, "\"ir_bytes\": {}, \"ir_functions\": {}, \"load_s\": {:.3}, \"warm_steps\": {}, \"wall_s\": {:.3},", ir_bytes, m.funcs.len(), t_load, warm_steps, t0.elapsed().as_secs_f64()).unwrap();
    writeln!(j, "\"failed_workers\": {},", bad).unwrap();
    let st: Vec<String> = stats.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    writeln!(j, "\"stats\": {{{}}},", st.join(", ")).unwrap();
    let fl: Vec<String> = fns.iter().enumerate().filter(|x| *x.1).map(|(i, _)| esc(&m.funcs[i].pretty)).collect();
    writeln!(j, "\"functions\": [{}],", fl.join(", ")).unwrap();
    let il: Vec<String> = internal.iter().take(10).map(|s| esc(s)).collect();
    writeln!(j, "\"internal\": [{}],", il.join(", ")).unwrap();
    writeln!(j, "\"entries\": {{").unwrap();
    for i in 0..n {
        fails[i].sort();
        samples[i].sort();
        samples[i].truncate(o.samples);
        let mm = |b: &BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ");
        let cv = covers[i].iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ");
        // fails: kind witness message
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        let mut fo = Vec::new();
        for (_, f) in &fails[i] {
            let mut p = f.splitn(3, ' ');
            let (k, w, msg) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap_or(""));
            let c = seen.entry(msg.to_string()).or_insert(0);
            *c += 1;
            if *c <= 6 {
                fo.push(format!("{{\"kind\": \"{}\", \"witness\": \"{}\", \"message\": {}}}", k, w, esc(msg)));
            }
        }
        let so: Vec<String> = samples[i]
            .iter()
            .map(|(_, s)| {
                let p: Vec<&str> = s.split(' ').collect();
                format!("{{\"end\": \"{}\", \"witness\": \"{}\", \"notes\": \"{}\", \"out\": \"{}\"}}", p[0], p[1], p[2], p[3])
            })
            .collect();
        writeln!(
            j,
            "{}: {{\"ends\": {{{}}}, \"covers\": {{{}}}, \"sums\": {{{}}}, \"max\": {{{}}}, \"fails\": [{}], \"samples\": [{}]}}{}",
            esc(&o.entries[i]),
            mm(&ends[i]),
            cv,
            mm(&sums[i]),
            mm(&maxs[i]),
            fo.join(", "),
            so.join(", "),
            if i + 1 < n { "," } else { "" }
        )
        .unwrap();
    }
    j.push_str("}\n}\n");
    std::fs::write(&o.out, j).unwrap();
    std::process::exit(if bad || !internal.is_empty() { 2 } else { 0 });
}
