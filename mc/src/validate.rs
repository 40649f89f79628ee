//! For comparisons with other tools (tools/validate.py): objects, and what this framework reads in them.
use crate::drive::{self, Out};
use crate::linker::{found, reached, End};
use crate::model::Model;
use crate::types::*;
use crate::view::*;
use crate::{elf, macho, props};
use std::fmt::Write;

fn hexed(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn emitted(sc: &Scenario, f: Fmt) -> Option<(Model, Vec<u8>)> {
    let (mut m, mut a) = (Model::default(), drive::new(sc));
    for o in &sc.ops { let _ = m.step(o); let _ = drive::guarded(|| drive::apply(&mut a, o)); }
    match drive::emit(&a, drive::bf(f)) { Out::Bytes(b) => Some((m, b)), _ => None }
}
/// every `stride`-th case of each family of a check
pub fn objects(id: &str, stride: u64, dir: &str) {
    let p = props::get(id, "quick").unwrap();
    let mut n = 0;
    for fam in &p.families {
        let mut i = fam.len / 3 % stride.max(1);
        while i < fam.len {
            let c = (fam.gen)(i);
            i += stride;
            let Some(c) = c else { continue };
            let f = c.fmt();
            let Some((_, b)) = emitted(&c.sc, f) else { continue };
            if b.len() > 2_000_000 { continue; }
            let mut t = String::new();
            match f {
                Fmt::Elf => {
                    let e = elf::read(&b).unwrap();
                    for (k, s) in e.secs.iter().enumerate() { writeln!(t, "section {} {} {} {} {} {} {} {} {} {}", k, hexed(&s.name), s.typ, s.flags, s.off, s.size, s.align, s.link, s.info, s.entsize).unwrap() }
                    for (k, y) in e.syms.iter().enumerate() { writeln!(t, "symbol {} {} {} {} {} {} {} {}", k, hexed(if y.typ == 3 { b"" } else { &y.name }), y.value, y.size, y.bind, y.typ, y.other, match y.shndx { elf::Shndx::Undef => 0, elf::Shndx::Abs => -1, elf::Shndx::Sec(i) => i as i64 }).unwrap() }
                    let names: Vec<Vec<u8>> = e.syms.iter().map(|y| y.name.clone()).collect();
                    for (k, s) in e.secs.iter().enumerate() { for r in &s.rels { writeln!(t, "reloc {} {} {} {} {}", k, r.off, r.typ, if e.syms[r.sym].typ == 3 { match e.syms[r.sym].shndx { elf::Shndx::Sec(i) => hexed(&e.secs[i].name), _ => String::new() } } else { hexed(&names[r.sym]) }, r.addend).unwrap() } }
                }
                Fmt::Macho => {
                    let m = macho::read(&b).unwrap();
                    for (k, s) in m.secs.iter().enumerate() { writeln!(t, "section {} {} {} {} {} {} {} {}", k, hexed(&s.name), hexed(&s.seg), s.addr, s.size, s.off, s.align, s.flags).unwrap() }
                    for (k, y) in m.syms.iter().enumerate() { writeln!(t, "symbol {} {} {} {} {} {}", k, hexed(&y.name), y.typ, y.sect, y.desc, y.value).unwrap() }
                    for (k, s) in m.secs.iter().enumerate() { for r in &s.rels { writeln!(t, "reloc {} {} {} {} {} {} {}", k, r.off, r.pcrel as u8, r.len, r.ext as u8, r.typ, r.sym).unwrap() } }
                }
            }
            std::fs::write(format!("{}/{:06}.o", dir, n), &b).unwrap();
            std::fs::write(format!("{}/{:06}.t", dir, n), t).unwrap();
            n += 1;
        }
    }
    println!("{} objects", n);
}
/// every `stride`-th case of the linker model: its objects, and what the model says about linking them
pub fn links(stride: u64, dir: &str) {
    let p = props::get("X07", "quick").unwrap();
    let mut n = 0;
    for fam in &p.families {
        let mut i = 0;
        while i < fam.len {
            let c = (fam.gen)(i);
            i += stride;
            let Some(c) = c else { continue };
            let f = c.fmt();
            let d = format!("{}/{:06}-{}", dir, n, if f == Fmt::Elf { "elf" } else { "macho" });
            std::fs::create_dir_all(&d).unwrap();
            n += 1;
            let all: Vec<(Scenario, Model, Vec<u8>)> = std::iter::once(&c.sc).chain(&c.more).filter_map(|s| emitted(s, f).map(|(m, b)| (s.clone(), m, b))).collect();
            let progs: Vec<_> = all.iter().map(|(s, m, _)| m.prog(s)).collect();
            let views: Vec<View> = all.iter().map(|x| View::read(f, &x.2).map_err(|e| e.msg).unwrap()).collect();
            let got = found(f, &progs, &views);
            let mut t = String::new();
            for (o, x) in all.iter().enumerate() { std::fs::write(format!("{}/{}.o", d, o), &x.2).unwrap() }
            for x in got.clashes() { writeln!(t, "clash {}", x).unwrap() }
            for x in got.exported(f) { writeln!(t, "exported {}", x).unwrap() }
            // what the pointers in each object's table end up at
            for (o, v) in views.iter().enumerate() {
                let tab = format!("tab{}", o);
                let Some(y) = v.syms.iter().find(|y| y.name == tab.as_bytes()) else { continue };
                let Place::At(sec, base) = y.place else { continue };
                for ((s, off), list) in reached(o, v, &got) {
                    if s != sec || off < base || off >= base + 32 { continue; }
                    for (e, _) in list {
                        match e {
                            End::Unresolved(n) => writeln!(t, "slot {} {} unresolved {}", o, off - base, n).unwrap(),
                            End::At(q, s, at) => {
                                let x = &views[q].secs[s];
                                // (the contents are the addend in Mach-O)
                                let y = &v.secs[sec];
                                let own = if f == Fmt::Macho && !y.nobits { u64::from_le_bytes(v.bytes[y.off + off as usize..y.off + off as usize + 8].try_into().unwrap()) } else { 0 };
                                if x.nobits { writeln!(t, "slot {} {} zero {}", o, off - base, own).unwrap() } else { writeln!(t, "slot {} {} bytes {} {}", o, off - base, own, hexed(&views[q].bytes[x.off + at as usize..(x.off + at as usize + 16).min(x.off + x.size as usize)])).unwrap() }
                            }
                        }
                    }
                }
            }
            std::fs::write(format!("{}/model", d), t).unwrap();
        }
    }
    println!("{} sets of objects", n);
}
