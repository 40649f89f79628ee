//! X07: a small model of the link step, over emitted objects. What the symbol tables and relocations of
//! the objects make of each link, compared with what the declarations promise.
use crate::drive::{self, Out};
use crate::emission::{build, domain, Dom};
use crate::families::*;
use crate::model::*;
use crate::runner::{Found, Stats};
use crate::types::*;
use crate::view::*;
use std::collections::BTreeMap;

/// what a reference ends up at: a place in an object
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum End { Unresolved(String), At(usize, usize, i64) }

/// the definitions and references of a name by object, in link order
#[derive(Clone, Debug)]
pub struct Def { obj: usize, strong: bool, vis: Vis, place: (usize, i64) }
pub struct Names { defs: BTreeMap<Vec<u8>, Vec<Def>>, vis: BTreeMap<Vec<u8>, Vec<Vis>> }
impl Names {
    /// names with several strong definitions
    pub fn clashes(&self) -> Vec<String> { self.defs.iter().filter(|(_, d)| d.iter().filter(|d| d.strong).count() > 1).map(|(n, _)| show(n)).collect() }
    fn resolve(&self, name: &[u8], addend: i64) -> End { match self.chosen(name) { Some(d) => End::At(d.obj, d.place.0, d.place.1 + addend), None => End::Unresolved(show(name)) } }
    fn chosen(&self, n: &[u8]) -> Option<&Def> { let d = self.defs.get(n)?; d.iter().find(|d| d.strong).or_else(|| d.first()) }
    pub fn exported(&self, fmt: Fmt) -> Vec<String> {
        self.defs.keys().filter(|n| match fmt {
            // the most constraining visibility of all that is said about the name
            Fmt::Elf => !self.vis[*n].contains(&Vis::Hidden),
            // the strong one's; that of weak ones if all agree (as ld64 has it)
            Fmt::Macho => match self.chosen(n) { Some(d) if d.strong => d.vis != Vis::Hidden, _ => self.defs[*n].iter().any(|d| d.vis != Vis::Hidden) },
        }).map(|n| show(n)).collect()
    }
}

/// what the declarations say
fn promised(progs: &[Prog], locs: &[Locs]) -> Result<Names, Viol> {
    let mut want = Names { defs: BTreeMap::new(), vis: BTreeMap::new() };
    for (o, p) in progs.iter().enumerate() {
        for (i, d) in p.defs.iter().enumerate() {
            if d.decl.is_section() || d.decl.get_scope() == Scope::Local { continue; }
            let Some((s, off)) = locs[o].at[i] else { return Err(viol("missing", format!("{:?} is not in object {}", d.name, o))) };
            let n = d.name.as_bytes().to_vec();
            want.vis.entry(n.clone()).or_default().push(d.decl.get_vis());
            want.defs.entry(n).or_default().push(Def { obj: o, strong: d.decl.get_scope() == Scope::Global, vis: d.decl.get_vis(), place: (s, off as i64) });
        }
    }
    Ok(want)
}
/// what the symbol tables say
pub fn found(fmt: Fmt, progs: &[Prog], views: &[View]) -> Names {
    let mut got = Names { defs: BTreeMap::new(), vis: BTreeMap::new() };
    for (o, v) in views.iter().enumerate() {
        for (i, y) in v.syms.iter().enumerate() {
            if !v.is_real_symbol(i) || y.scope == Scope::Local || progs[o].defs.iter().any(|d| d.syms.keys().any(|k| k.as_bytes() == &y.name[..])) { continue; }
            match y.place {
                Place::At(s, off) => {
                    got.vis.entry(y.name.clone()).or_default().push(y.vis);
                    got.defs.entry(y.name.clone()).or_default().push(Def { obj: o, strong: y.scope == Scope::Global, vis: y.vis, place: (s, off as i64) });
                }
                Place::Undef => if fmt == Fmt::Elf { got.vis.entry(y.name.clone()).or_default().push(y.vis) },
                Place::Abs => {}
            }
        }
    }
    got
}
/// where each relocation of an object ends up
pub fn reached(o: usize, v: &View, got: &Names) -> BTreeMap<(usize, u64), Vec<(End, RType)>> {
    let mut act: BTreeMap<(usize, u64), Vec<(End, RType)>> = BTreeMap::new();
    for (s, sec) in v.secs.iter().enumerate() {
        for r in &sec.rels {
            let e = match r.sym {
                None => End::Unresolved("<section>".into()),
                Some(k) => { let y = &v.syms[k]; match y.place {
                    Place::At(t, off) if y.scope == Scope::Local || !v.is_real_symbol(k) => End::At(o, t, off as i64 + r.addend),
                    Place::Abs => End::Unresolved("<absolute>".into()),
                    _ => got.resolve(&y.name, r.addend),
                } }
            };
            act.entry((s, r.off)).or_default().push((e, r.typ));
        }
    }
    act
}

pub fn link(c: &Case, st: &mut Stats) -> Found {
    let fmt = c.fmt();
    let mut progs: Vec<Prog> = vec![];
    let mut bytes: Vec<Vec<u8>> = vec![];
    for sc in std::iter::once(&c.sc).chain(&c.more) {
        let (m, a) = match build(sc, st) { Ok(x) => x, Err(e) => return e };
        if !m.emit_errors("", true).is_empty() { st.skip("not emittable"); return vec![]; }
        let p = m.prog(sc);
        if !matches!(domain(&p, fmt), Dom::In) { st.skip("outside of the domain"); return vec![]; }
        match drive::emit(&a, drive::bf(fmt)) { Out::Bytes(b) => bytes.push(b), o => return vec![(None, viol("emission-failed", format!("emission as {:?} fails: {:?}", fmt, o)))] }
        progs.push(p);
    }
    st.state(&(c.param("fmt"), &progs));
    st.traces += bytes.len() as u64;
    let mut views = vec![];
    for b in &bytes { match View::read(fmt, b) { Ok(v) => views.push(v), Err(e) => return vec![(None, e)] } }
    let locs: Vec<Locs> = progs.iter().zip(&views).map(|(p, v)| locate(p, v)).collect();

    let want = match promised(&progs, &locs) { Ok(w) => w, Err(e) => return vec![(None, e)] };
    // what the symbol tables say (custom symbols aside, whose scope nothing is said about)
    let got = found(fmt, &progs, &views);
    let (wc, gc) = (want.clashes(), got.clashes());
    if wc != gc { return vec![(None, viol("clash", format!("duplicate definitions: {:?} instead of {:?}", gc, wc)))]; }
    if !wc.is_empty() { st.count("clashes"); st.outcome(&wc); return vec![]; }
    let (we, ge) = (want.exported(fmt), got.exported(fmt));
    if we != ge { return vec![(None, viol("exported", format!("visible outside of the result: {:?} instead of {:?}", ge, we)))]; }
    st.outcome(&(&we, 0));

    for (o, (p, v)) in progs.iter().zip(&views).enumerate() {
        // in order, by place
        let mut act = reached(o, v, &got);
        let resolve = |n: &Names, name: &[u8], addend: i64| n.resolve(name, addend);
        let mut exp: BTreeMap<(usize, u64), Vec<(&MLink, End)>> = BTreeMap::new();
        for k in &p.links {
            let (Some(&fi), Some((_, addend))) = (locs[o].idx.get(&k.from), wanted(p, v, &locs[o], k)) else { continue };
            let Some((s, off)) = locs[o].at[fi] else { continue };
            let e = match p.def(&k.to) {
                Some(d) if d.decl.get_scope() != Scope::Weak => { let t = locs[o].at[locs[o].idx[&k.to]].unwrap(); End::At(o, t.0, t.1 as i64 + addend) }
                _ => resolve(&want, k.to.as_bytes(), addend),
            };
            exp.entry((s, off + k.at)).or_default().push((k, e));
        }
        for (site, list) in &exp {
            let g = act.remove(site).unwrap_or_default();
            for (i, (k, w)) in list.iter().enumerate() {
                let what = format!("object {}: link {:?} -> {:?} at {}", o, k.from, k.to, k.at);
                match g.get(i) {
                    None => return vec![(None, viol("lost", format!("{} has no relocation", what)))],
                    Some((e, _)) if e != w => return vec![(None, viol("reference", format!("{} reaches {:?} instead of {:?} (object, section, offset)", what, e, w)))],
                    Some((e, t)) => { st.transitions += 1; st.outcome(&(o, e, t)); }
                }
            }
        }
        st.count("objects resolved");
    }
    vec![]
}

/// roles of a name in an object
pub fn link_roles() -> Vec<Option<(Decl, bool)>> {
    let mut v = vec![None, Some((Decl::Import(Ik::Func), false)), Some((Decl::Import(Ik::Data), false))];
    for s in SCOPES { for x in VISES { v.push(Some((Decl::func().scope(s).vis(x), false))); v.push(Some((Decl::wdata().scope(s).vis(x), false))); v.push(Some((Decl::wdata().scope(s).vis(x), true))) } }
    v
}
fn few_roles() -> Vec<Option<(Decl, bool)>> {
    let mut v = vec![None, Some((Decl::Import(Ik::Func), false)), Some((Decl::Import(Ik::Data), false))];
    for s in SCOPES { v.push(Some((Decl::func().scope(s), false))); v.push(Some((Decl::data().scope(s), false))) }
    v.push(Some((Decl::func().scope(Scope::Global).vis(Vis::Hidden), false)));
    v.push(Some((Decl::wdata().scope(Scope::Weak).vis(Vis::Hidden), true)));
    v.push(Some((Decl::func().scope(Scope::Weak).vis(Vis::Protected), false)));
    v
}
fn part(f: Fmt, o: usize, names: &[(&str, Option<(Decl, bool)>)]) -> Scenario {
    let mut sc = Scenario::new(tgt(f));
    sc.name = format!("{}.o", o);
    for (j, (n, r)) in names.iter().enumerate() {
        let Some((d, z)) = r else { continue };
        sc = sc.declare(n, *d);
        if d.is_import() { continue; }
        sc = if *z { sc.zero(n, 8 + o + 3 * j) } else { sc.define(n, Bytes::Pat((10 * o + j) as u32 + 1, 16 + o)) };
    }
    let (u, t) = (format!("use{}", o), format!("tab{}", o));
    sc = sc.declare(&u, Decl::func().scope(if o == 1 { Scope::Local } else { Scope::Global })).define(&u, Bytes::Pat(90 + o as u32, 32)).declare(&t, Decl::wdata().scope(Scope::Global)).define(&t, Bytes::Pat(95 + o as u32, 32));
    for (j, (n, r)) in names.iter().enumerate() {
        let Some((_, _)) = r else { continue };
        sc = sc.link(&u, n, 8 * j as u64 + 1).link(&t, n, 8 * j as u64);
        // and between them
        for (k, (m, q)) in names.iter().enumerate() { if let (Some((a, false)), Some(_)) = (r, q) { if !a.is_import() && k != j { sc = sc.link(n, m, 4) } } }
    }
    sc
}
pub fn one_name(f: Fmt, objects: usize, small: bool) -> Family {
    let r = if small { few_roles() } else { link_roles() };
    let n = r.len();
    family(format!("{} objects, one name in {} roles, {:?}", objects, n, f), (n as u64).pow(objects as u32), move |i| {
        let mut x = Ix(i);
        let mut s: Vec<Scenario> = (0..objects).map(|o| part(f, o, &[("x", *x.of(&r))])).collect();
        let mut c = Case::new(s.remove(0)).on(f);
        c.more = s;
        Some(c)
    })
}
pub fn two_names(f: Fmt, objects: usize) -> Family {
    let r = few_roles();
    let n = r.len();
    family(format!("{} objects, two names in {} roles, {:?}", objects, n, f), (n as u64).pow(2 * objects as u32), move |i| {
        let mut x = Ix(i);
        let mut s: Vec<Scenario> = (0..objects).map(|o| part(f, o, &[("x", *x.of(&r)), ("y", *x.of(&r))])).collect();
        let mut c = Case::new(s.remove(0)).on(f);
        c.more = s;
        Some(c)
    })
}
