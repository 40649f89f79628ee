mod api;
mod drive;
mod elf;
mod emission;
mod families;
mod files;
mod limits;
mod linker;
mod macho;
mod model;
mod props;
mod pure;
mod runner;
mod targets;
mod types;
mod validate;
mod view;

use std::process::{exit, Command};

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let tier = arg(&a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    // panics of the code under test are outcomes, not messages
    std::panic::set_hook(Box::new(|i| { if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("{}", i) } }));
    match a.first().map(|s| s.as_str()) {
        Some("list") => for p in props::ids() { println!("{}", p) },
        Some("check") => exit(parent(&a[1], &tier)),
        // the rest of it runs in a process of its own, that may be killed by what it tries
        Some("worker") => {
            limit();
            let p = props::get(&a[1], &tier).unwrap_or_else(|| { eprintln!("unknown property {}", a[1]); exit(2) });
            exit(runner::run(&p, &tier, arg(&a, "--inflight").as_deref()));
        }
        Some("one") => {
            limit();
            let p = props::get(&a[1], &tier).unwrap();
            if let Some(c) = (p.families[a[2].parse::<usize>().unwrap()].gen)(a[3].parse().unwrap()) {
                if a.iter().any(|x| x == "--print") { print!("{}", types::put_case(&c)) }
                let r = drive::guarded(|| (p.check)(&c, &mut runner::Stats::default()));
                println!("{:?}", r.map(|r| r.into_iter().map(|x| x.1).collect::<Vec<_>>()));
            }
        }
        Some("dump") => {
            // the object of a case, for other tools: dump <replay file> <out>
            let t = std::fs::read_to_string(&a[1]).expect("replay file");
            let c = types::get_case(&t).expect("case");
            let mut x = drive::new(&c.sc);
            for op in &c.sc.ops { println!("{} -> {:?}", types::put_op(op), drive::apply(&mut x, op)); }
            match drive::emit(&x, drive::bf(c.fmt())) { drive::Out::Bytes(b) => std::fs::write(&a[2], b).unwrap(), o => println!("{:?}", o) }
        }
        // for comparisons with other tools: every so many-th case's objects, and what this framework reads in them
        Some("objects") => validate::objects(&a[1], a[2].parse().unwrap(), &a[3]),
        Some("links") => validate::links(a[1].parse().unwrap(), &a[2]),
        Some("replay") => {
            let t = std::fs::read_to_string(&a[1]).unwrap_or_else(|e| { eprintln!("{}: {}", a[1], e); exit(2) });
            let id = t.lines().find_map(|l| l.strip_prefix("# property: ")).unwrap_or_else(|| { eprintln!("not a replay file"); exit(2) }).trim().to_string();
            let c = types::get_case(&t).unwrap_or_else(|| { eprintln!("cannot parse the case"); exit(2) });
            let p = props::get(&id, "quick").unwrap_or_else(|| { eprintln!("unknown property {}", id); exit(2) });
            limit();
            let r = match drive::guarded(|| (p.check)(&c, &mut runner::Stats::default())) { Ok(r) => r, Err(m) => { println!("panic: {}", m); println!("VIOLATION property={} replay={}", id, a[1]); exit(1) } };
            for (_, v) in &r { println!("[{}] {}", v.key, v.msg) }
            if !r.is_empty() { println!("VIOLATION property={} replay={}", id, a[1]); exit(1) }
            println!("no violation");
        }
        _ => { eprintln!("usage: mc check ID [--tier quick|thorough] | replay FILE | list"); exit(2) }
    }
}

fn limit() {
    // an absurd allocation shall fail, not take the machine down
    let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l); let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &c); }
}

fn parent(id: &str, tier: &str) -> i32 {
    let me = std::env::current_exe().expect("own path");
    let _ = std::fs::create_dir_all(runner::root().join("target"));
    let fl = runner::root().join(format!("target/.inflight-{}-{}", id, std::process::id()));
    std::fs::write(&fl, vec![0u8; runner::SLOTS * 16]).expect("in-flight file");
    let fls = fl.to_str().unwrap().to_string();
    let st = Command::new(&me).args(["worker", id, "--tier", tier, "--inflight", &fls]).status().expect("worker");
    let cand = runner::in_flight(&fls);
    let _ = std::fs::remove_file(&fl);
    match st.code() {
        Some(c) if c <= 3 => return c,
        _ => {}
    }
    eprintln!("worker ended with {}", st);
    let p = match props::get(id, tier) { Some(p) => p, None => return 2 };
    for (f, i) in cand {
        if f >= p.families.len() { continue; }
        // twice, to be sure that it's the case that does it
        let dies = || {
            let s = Command::new(&me).args(["one", id, &f.to_string(), &i.to_string(), "--tier", tier]).status();
            s.map_or(false, |s| s.code().is_none())
        };
        if dies() && dies() {
            let c = (p.families[f].gen)(i).unwrap();
            let v = view::viol("crash", "the process is killed while doing this (failed allocation, stack overflow, ...)");
            let path = runner::write_replay(id, &c, &v);
            runner::evidence(&p, tier, &runner::Stats { traces: 1, ..Default::default() }, "", 1, 0.0, 1, &[], "stopped by a case that kills the process");
            println!("{}: [crash] {}", id, v.msg);
            println!("VIOLATION property={} replay={}", id, path);
            return 1;
        }
    }
    3
}
