//! A strict, independent reader of ELF relocatable objects. Refuses whatever is not consistent.
pub struct Sec { pub name: Vec<u8>, pub typ: u32, pub flags: u64, pub addr: u64, pub off: u64, pub size: u64, pub link: u32, pub info: u32, pub align: u64, pub entsize: u64, pub rels: Vec<Rel> }
#[derive(Clone, Debug)]
pub struct Rel { pub off: u64, pub sym: usize, pub typ: u32, pub addend: i64 }
#[derive(Clone, Debug)]
pub struct Sym { pub name: Vec<u8>, pub value: u64, pub size: u64, pub bind: u8, pub typ: u8, pub other: u8, pub shndx: Shndx }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shndx { Undef, Abs, Sec(usize) }
pub struct Elf { pub is64: bool, pub le: bool, pub machine: u16, pub flags: u32, pub secs: Vec<Sec>, pub syms: Vec<Sym>, pub extended: bool }

pub const SHT_PROGBITS: u32 = 1;
pub const SHT_SYMTAB: u32 = 2;
pub const SHT_STRTAB: u32 = 3;
pub const SHT_RELA: u32 = 4;
pub const SHT_NOBITS: u32 = 8;
pub const SHT_REL: u32 = 9;
pub const SHT_SYMTAB_SHNDX: u32 = 18;
pub const SHF_WRITE: u64 = 1;
pub const SHF_ALLOC: u64 = 2;
pub const SHF_EXEC: u64 = 4;
pub const SHF_MERGE: u64 = 0x10;
pub const SHF_STRINGS: u64 = 0x20;

struct R<'a> { b: &'a [u8], le: bool, is64: bool }
impl<'a> R<'a> {
    fn n(&self, o: u64, w: usize) -> Result<u64, String> {
        let o = usize::try_from(o).map_err(|_| "offset")?;
        let s = o.checked_add(w).and_then(|e| self.b.get(o..e)).ok_or_else(|| format!("read of {} bytes at {:#x} is beyond the file", w, o))?;
        Ok(if self.le { s.iter().rev().fold(0, |a, &x| a << 8 | x as u64) } else { s.iter().fold(0, |a, &x| a << 8 | x as u64) })
    }
    fn word(&self, o: u64) -> Result<u64, String> { self.n(o, if self.is64 { 8 } else { 4 }) }
}
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

fn cstr(tab: &[u8], o: u64) -> Result<Vec<u8>, String> {
    let t = tab.get(o as usize..).ok_or_else(|| format!("name offset {:#x} is beyond the string table", o))?;
    let e = t.iter().position(|&c| c == 0).ok_or("unterminated name")?;
    Ok(t[..e].to_vec())
}

/// (with the fields of relocations where all machines but one have them)
pub fn read(b: &[u8]) -> Result<Elf, String> { read_as(b, false) }
/// `own`: with the fields of relocations where the machine has them. 64-bit MIPS has a word and four bytes instead of two words, which is different if it is little-endian
pub fn read_as(b: &[u8], own: bool) -> Result<Elf, String> {
    ck!(b.len() >= 52 && &b[..4] == b"\x7fELF", "no ELF magic");
    ck!(b[4] == 1 || b[4] == 2, "EI_CLASS {}", b[4]);
    ck!(b[5] == 1 || b[5] == 2, "EI_DATA {}", b[5]);
    ck!(b[6] == 1, "EI_VERSION {}", b[6]);
    ck!(b[9..16].iter().all(|&x| x == 0), "e_ident padding");
    let (is64, le) = (b[4] == 2, b[5] == 1);
    let r = R { b, le, is64 };
    let w = if is64 { 8 } else { 4u64 };
    ck!(r.n(16, 2)? == 1, "e_type {} is not ET_REL", r.n(16, 2)?);
    let machine = r.n(18, 2)? as u16;
    ck!(r.n(20, 4)? == 1, "e_version");
    let o = 24;
    ck!(r.word(o)? == 0, "e_entry");
    ck!(r.word(o + w)? == 0, "e_phoff");
    let shoff = r.word(o + 2 * w)?;
    let o = o + 3 * w;
    let flags = r.n(o, 4)? as u32;
    if matches!(machine, 62 | 3) { ck!(flags == 0, "e_flags {:#x}", flags) }
    let ehsize = if is64 { 64 } else { 52 };
    let shentsize = if is64 { 64 } else { 40u64 };
    ck!(r.n(o + 4, 2)? == ehsize, "e_ehsize {}", r.n(o + 4, 2)?);
    ck!(r.n(o + 8, 2)? == 0, "e_phnum");
    ck!(r.n(o + 10, 2)? == shentsize, "e_shentsize {}", r.n(o + 10, 2)?);
    let e_shnum = r.n(o + 12, 2)?;
    let e_shstrndx = r.n(o + 14, 2)?;
    ck!(shoff != 0 && shoff % w == 0, "e_shoff {:#x} is not aligned", shoff);
    struct Raw { name: u64, typ: u32, flags: u64, addr: u64, off: u64, size: u64, link: u32, info: u32, align: u64, entsize: u64 }
    let hdr = |i: u64| -> Result<Raw, String> {
        let o = shoff.checked_add(i * shentsize).ok_or("overflow")?;
        Ok(Raw { name: r.n(o, 4)?, typ: r.n(o + 4, 4)? as u32, flags: r.word(o + 8)?, addr: r.word(o + 8 + w)?, off: r.word(o + 8 + 2 * w)?, size: r.word(o + 8 + 3 * w)?,
            link: r.n(o + 8 + 4 * w, 4)? as u32, info: r.n(o + 12 + 4 * w, 4)? as u32, align: r.word(o + 16 + 4 * w)?, entsize: r.word(o + 16 + 5 * w)? })
    };
    let h0 = hdr(0)?;
    let extended = e_shnum == 0;
    let shnum = if extended { ck!(h0.size >= 0xff00, "e_shnum is 0, but the real number is {}", h0.size); h0.size } else { ck!(e_shnum < 0xff00, "e_shnum {:#x} is reserved", e_shnum); ck!(h0.size == 0, "section 0 has a size"); e_shnum };
    ck!(h0.name == 0 && h0.typ == 0 && h0.flags == 0 && h0.addr == 0 && h0.off == 0 && h0.info == 0 && h0.entsize == 0, "section 0 is not null");
    let shstrndx = if e_shstrndx == 0xffff { h0.link as u64 } else { ck!(h0.link == 0, "section 0 has a link"); e_shstrndx };
    ck!(shstrndx > 0 && shstrndx < shnum && (e_shstrndx == 0xffff || e_shstrndx < 0xff00), "e_shstrndx {}", shstrndx);
    ck!(shoff.checked_add(shnum * shentsize).map_or(false, |e| e <= b.len() as u64), "section headers beyond the file");
    let raws: Vec<Raw> = (0..shnum).map(hdr).collect::<Result<_, _>>()?;
    // extents
    let mut ext: Vec<(u64, u64, String)> = vec![(0, ehsize, "the ELF header".into()), (shoff, shoff + shnum * shentsize, "the section headers".into())];
    for (i, s) in raws.iter().enumerate().skip(1) {
        ck!(matches!(s.typ, SHT_PROGBITS | SHT_SYMTAB | SHT_STRTAB | SHT_RELA | SHT_NOBITS | SHT_REL | SHT_SYMTAB_SHNDX | 7), "section {} has type {}", i, s.typ);
        ck!(s.align == 0 || s.align.is_power_of_two(), "section {} has alignment {}", i, s.align);
        ck!(s.addr == 0, "section {} has an address", i);
        if s.typ != SHT_NOBITS {
            ck!(s.off.checked_add(s.size).map_or(false, |e| e <= b.len() as u64), "section {} is beyond the file", i);
            if s.size > 0 { ext.push((s.off, s.off + s.size, format!("section {}", i))) }
        } else {
            ck!(s.off <= b.len() as u64, "section {} has an offset beyond the file", i);
        }
        if matches!(s.typ, SHT_SYMTAB | SHT_RELA | SHT_REL) { ck!(s.off % w == 0, "table in section {} is not aligned", i) }
        if s.typ == SHT_SYMTAB_SHNDX { ck!(s.off % 4 == 0, "table in section {} is not aligned", i) }
    }
    ext.sort();
    for p in ext.windows(2) { ck!(p[0].1 <= p[1].0, "{} overlaps {}", p[0].2, p[1].2) }
    let body = |s: &Raw| &b[s.off as usize..(s.off + s.size) as usize];
    let strtab = |i: u64| -> Result<&[u8], String> {
        let s = raws.get(i as usize).ok_or("bad string table index")?;
        ck!(s.typ == SHT_STRTAB, "section {} is used as a string table", i);
        let t = body(s);
        ck!(t.first() == Some(&0) && t.last() == Some(&0), "string table {} is not enclosed in NULs", i);
        Ok(t)
    };
    let shstr = strtab(shstrndx)?;
    let mut secs: Vec<Sec> = vec![];
    for (i, s) in raws.iter().enumerate() {
        // strings of single bytes (0: not told, which linkers take for "not mergeable after all")
        if s.flags & SHF_MERGE != 0 { ck!(s.flags & 0x20 != 0 && s.entsize <= 1, "section {} is to be merged by entries of {} bytes", i, s.entsize) }
        secs.push(Sec { name: cstr(shstr, s.name)?, typ: s.typ, flags: s.flags, addr: s.addr, off: s.off, size: s.size, link: s.link, info: s.info, align: s.align, entsize: s.entsize, rels: vec![] });
    }
    // symbols
    let symtabs: Vec<usize> = (0..raws.len()).filter(|&i| raws[i].typ == SHT_SYMTAB).collect();
    ck!(symtabs.len() == 1, "{} symbol tables", symtabs.len());
    let st = symtabs[0];
    let symsize = if is64 { 24 } else { 16u64 };
    ck!(raws[st].entsize == symsize && raws[st].size % symsize == 0 && raws[st].size > 0, "symbol table sizes {} {}", raws[st].entsize, raws[st].size);
    let names = strtab(raws[st].link as u64)?;
    let nsyms = raws[st].size / symsize;
    let xs: Vec<usize> = (0..raws.len()).filter(|&i| raws[i].typ == SHT_SYMTAB_SHNDX).collect();
    ck!(xs.len() <= 1, "{} symbol section index tables", xs.len());
    let xindex = match xs.first() {
        None => None,
        Some(&x) => {
            ck!(raws[x].link as usize == st, "symbol section indexes link to {}", raws[x].link);
            ck!(raws[x].entsize == 4 && raws[x].size == nsyms * 4, "{} bytes of symbol section indexes for {} symbols", raws[x].size, nsyms);
            Some(raws[x].off)
        }
    };
    let mut syms = vec![];
    for i in 0..nsyms {
        let o = raws[st].off + i * symsize;
        let (name, info, other, shndx, value, size) = if is64 { (r.n(o, 4)?, r.n(o + 4, 1)?, r.n(o + 5, 1)?, r.n(o + 6, 2)?, r.n(o + 8, 8)?, r.n(o + 16, 8)?) } else { (r.n(o, 4)?, r.n(o + 12, 1)?, r.n(o + 13, 1)?, r.n(o + 14, 2)?, r.n(o + 4, 4)?, r.n(o + 8, 4)?) };
        if i == 0 { ck!(name == 0 && info == 0 && other == 0 && shndx == 0 && value == 0 && size == 0, "symbol 0 is not null") }
        let sh = match shndx {
            0 => Shndx::Undef,
            0xfff1 => Shndx::Abs,
            0xffff => {
                let x = r.n(xindex.ok_or("extended section index without a table")? + 4 * i, 4)?;
                ck!(x >= 0xff00 && x < shnum, "symbol {} has extended section index {:#x} of {:#x}", i, x, shnum);
                Shndx::Sec(x as usize)
            }
            x => { ck!(x < 0xff00 && x < shnum, "symbol {} has section index {:#x} of {:#x}", i, x, shnum); Shndx::Sec(x as usize) }
        };
        // (gABI: "only symbols with SHN_XINDEX have one")
        if let (true, Some(t)) = (shndx != 0xffff, xindex) { let x = r.n(t + 4 * i, 4)?; ck!(x == 0, "symbol {} has extended section index {:#x}, but is in section {:#x}", i, x, shndx) }
        let s = Sym { name: cstr(names, name)?, value, size, bind: (info >> 4) as u8, typ: (info & 15) as u8, other: other as u8, shndx: sh };
        ck!(s.bind <= 2, "symbol {} has binding {}", i, s.bind);
        ck!(s.typ <= 4, "symbol {} has type {}", i, s.typ);
        ck!(s.other <= 3, "symbol {} has st_other {:#x}", i, s.other);
        if s.typ == 3 { ck!(s.bind == 0 && s.value == 0 && matches!(s.shndx, Shndx::Sec(_)), "section symbol {} is odd", i) }
        if s.typ == 4 { ck!(s.bind == 0 && s.shndx == Shndx::Abs, "file symbol {} is odd", i) }
        if let Shndx::Sec(x) = s.shndx {
            let h = &raws[x];
            ck!(matches!(h.typ, SHT_PROGBITS | SHT_NOBITS) || s.typ == 3, "symbol {} is in section {} of type {}", i, x, h.typ);
            // (a custom symbol may well be declared beyond the end of its section)
            if s.typ == 1 || s.typ == 2 { ck!(s.value.checked_add(s.size).map_or(false, |e| e <= h.size), "symbol {} extends beyond section {}", i, x) }
        }
        if s.shndx == Shndx::Undef && i > 0 { ck!(s.bind != 0 && s.value == 0 && s.size == 0, "undefined symbol {} is odd", i) }
        syms.push(s);
    }
    let info = raws[st].info as usize;
    let first = syms.iter().position(|s| s.bind != 0).unwrap_or(syms.len());
    ck!(syms[first..].iter().all(|s| s.bind != 0), "local symbols after non-local ones");
    ck!(info == first, "symtab sh_info is {}, the first non-local symbol is {}", info, first);
    // relocations
    for (i, s) in raws.iter().enumerate() {
        if s.typ != SHT_RELA && s.typ != SHT_REL { continue; }
        let rela = s.typ == SHT_RELA;
        let es = if rela { 3 * w } else { 2 * w };
        ck!(s.entsize == es && s.size % es == 0, "relocation section {} has entry size {} and size {}", i, s.entsize, s.size);
        ck!(s.link as usize == st, "relocation section {} links to {}", i, s.link);
        let t = s.info as usize;
        ck!(t > 0 && t < raws.len() && t != i && matches!(raws[t].typ, SHT_PROGBITS | SHT_NOBITS), "relocation section {} applies to {}", i, t);
        for j in 0..s.size / es {
            let o = s.off + j * es;
            let (off, inf) = (r.word(o)?, r.word(o + w)?);
            let addend = if rela { if is64 { r.n(o + 16, 8)? as i64 } else { r.n(o + 8, 4)? as u32 as i32 as i64 } } else { 0 };
            let inf = if own && is64 && le && matches!(machine, 8 | 10) { inf << 32 | (inf >> 32 & 0xff) << 24 | (inf >> 40 & 0xff) << 16 | (inf >> 48 & 0xff) << 8 | inf >> 56 } else { inf };
            let (sym, typ) = if is64 { ((inf >> 32) as usize, inf as u32) } else { ((inf >> 8) as usize, (inf & 0xff) as u32) };
            ck!(sym < syms.len(), "relocation against symbol {} of {}", sym, syms.len());
            ck!(off <= raws[t].size, "relocation at {:#x} beyond the {:#x} bytes of section {}", off, raws[t].size, t);
            secs[t].rels.push(Rel { off, sym, typ, addend });
        }
    }
    Ok(Elf { is64, le, machine, flags, secs, syms, extended })
}
