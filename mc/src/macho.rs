//! A strict, independent reader of Mach-O relocatable objects. Refuses whatever is not consistent.
pub struct Sec { pub name: Vec<u8>, pub seg: Vec<u8>, pub addr: u64, pub size: u64, pub off: u64, pub align: u32, pub flags: u32, pub rels: Vec<Rel> }
#[derive(Clone, Debug)]
pub struct Rel { pub off: u64, pub sym: usize, pub pcrel: bool, pub len: u8, pub ext: bool, pub typ: u8 }
#[derive(Clone, Debug)]
pub struct Sym { pub name: Vec<u8>, pub typ: u8, pub sect: u8, pub desc: u16, pub value: u64 }
pub struct Macho { pub is64: bool, pub le: bool, pub cputype: u32, pub cpusubtype: u32, pub flags: u32, pub secs: Vec<Sec>, pub syms: Vec<Sym> }

pub const S_TYPE: u32 = 0xff;
pub const S_ZEROFILL: u32 = 1;
pub const S_CSTRINGS: u32 = 2;
pub const S_ATTR_PURE: u32 = 0x8000_0000;
pub const S_ATTR_SOME: u32 = 0x0000_0400;
pub const S_ATTR_DEBUG: u32 = 0x0200_0000;
pub const N_EXT: u8 = 1;
pub const N_PEXT: u8 = 0x10;
pub const N_TYPE: u8 = 0x0e;
pub const N_STAB: u8 = 0xe0;

macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
struct R<'a> { b: &'a [u8], le: bool }
impl<'a> R<'a> {
    fn n(&self, o: u64, w: usize) -> Result<u64, String> {
        let o = usize::try_from(o).map_err(|_| "offset")?;
        let s = o.checked_add(w).and_then(|e| self.b.get(o..e)).ok_or_else(|| format!("read of {} bytes at {:#x} is beyond the file", w, o))?;
        Ok(if self.le { s.iter().rev().fold(0, |a, &x| a << 8 | x as u64) } else { s.iter().fold(0, |a, &x| a << 8 | x as u64) })
    }
    fn name16(&self, o: u64) -> Result<Vec<u8>, String> {
        let s = self.b.get(o as usize..o as usize + 16).ok_or("name beyond the file")?;
        let e = s.iter().position(|&c| c == 0).unwrap_or(16);
        ck!(s[e..].iter().all(|&c| c == 0), "junk after a section name");
        Ok(s[..e].to_vec())
    }
}

/// (with the fields of relocations where little-endian machines have them: all faerie ever writes)
pub fn read(b: &[u8]) -> Result<Macho, String> { read_as(b, false) }
/// `own`: with the fields of relocations where the machine has them. They are bit fields, so big-endian ones have them the other way round
pub fn read_as(b: &[u8], own: bool) -> Result<Macho, String> {
    ck!(b.len() >= 28, "too short");
    let (le, is64) = match [b[0], b[1], b[2], b[3]] {
        [0xcf, 0xfa, 0xed, 0xfe] => (true, true),
        [0xce, 0xfa, 0xed, 0xfe] => (true, false),
        [0xfe, 0xed, 0xfa, 0xcf] => (false, true),
        [0xfe, 0xed, 0xfa, 0xce] => (false, false),
        m => return Err(format!("magic {:x?}", m)),
    };
    let r = R { b, le };
    let len = b.len() as u64;
    let (cputype, cpusubtype) = (r.n(4, 4)? as u32, r.n(8, 4)? as u32);
    ck!(r.n(12, 4)? == 1, "filetype {} is not MH_OBJECT", r.n(12, 4)?);
    let (ncmds, sizeofcmds, flags) = (r.n(16, 4)?, r.n(20, 4)?, r.n(24, 4)? as u32);
    let hs = if is64 { ck!(r.n(28, 4)? == 0, "reserved header field"); 32 } else { 28u64 };
    let end = hs + sizeofcmds;
    ck!(end <= len, "load commands beyond the file");
    let mut ext: Vec<(u64, u64, String)> = vec![(0, end, "the load commands".into())];
    let mut o = hs;
    let (mut seg, mut sym) = (None, None);
    for i in 0..ncmds {
        ck!(o + 8 <= end, "load command {} beyond the load commands", i);
        let (cmd, size) = (r.n(o, 4)?, r.n(o + 4, 4)?);
        ck!(size >= 8 && size % (if is64 { 8 } else { 4 }) == 0 && o + size <= end, "load command {} has size {}", i, size);
        match cmd {
            0x19 | 1 => { ck!((cmd == 0x19) == is64, "segment command of the wrong size"); ck!(seg.is_none(), "several segments"); seg = Some((o, size)) }
            2 => { ck!(sym.is_none(), "several symbol tables"); ck!(size == 24, "LC_SYMTAB size"); sym = Some(o) }
            0x0b | 0x32 => {}
            c => return Err(format!("load command {:#x}", c)),
        }
        o += size;
    }
    ck!(o == end, "sizeofcmds is {} but the commands have {} bytes", sizeofcmds, o - hs);
    let (so, ssize) = seg.ok_or("no segment")?;
    let w = if is64 { 8usize } else { 4 };
    let wu = w as u64;
    ck!(r.name16(so + 8)?.is_empty(), "the segment of an object has a name");
    let (vmaddr, vmsize, fileoff, filesize) = (r.n(so + 24, w)?, r.n(so + 24 + wu, w)?, r.n(so + 24 + 2 * wu, w)?, r.n(so + 24 + 3 * wu, w)?);
    let p = so + 24 + 4 * wu;
    let nsects = r.n(p + 8, 4)?;
    ck!(vmaddr == 0, "vmaddr {:#x}", vmaddr);
    ck!(filesize <= vmsize, "filesize {:#x} > vmsize {:#x}", filesize, vmsize);
    ck!(fileoff.checked_add(filesize).map_or(false, |e| e <= len), "segment beyond the file");
    let ss = if is64 { 80 } else { 68u64 };
    let sh = 24 + 4 * wu + 16;
    ck!(ssize == sh + nsects * ss, "segment command has size {} for {} sections", ssize, nsects);
    ck!(nsects <= 255, "{} sections", nsects);
    let yo = sym.ok_or("no LC_SYMTAB")?;
    let (symoff, nsyms, stroff, strsize) = (r.n(yo + 8, 4)?, r.n(yo + 12, 4)?, r.n(yo + 16, 4)?, r.n(yo + 20, 4)?);
    let es = if is64 { 16 } else { 12u64 };
    ck!(symoff + nsyms * es <= len && stroff + strsize <= len, "symbol or string table beyond the file");
    if nsyms > 0 { ext.push((symoff, symoff + nsyms * es, "the symbol table".into())) }
    if strsize > 0 { ext.push((stroff, stroff + strsize, "the string table".into())) }
    let mut secs = vec![];
    let mut addrs: Vec<(u64, u64, usize)> = vec![];
    let mut seen_zerofill = false;
    for i in 0..nsects {
        let o = so + sh + i * ss;
        let (addr, size) = (r.n(o + 32, w)?, r.n(o + 32 + wu, w)?);
        let q = o + 32 + 2 * wu;
        let (off, align, reloff, nreloc, flags) = (r.n(q, 4)?, r.n(q + 4, 4)? as u32, r.n(q + 8, 4)?, r.n(q + 12, 4)?, r.n(q + 16, 4)? as u32);
        for k in 0..(if is64 { 3 } else { 2 }) { ck!(r.n(q + 20 + 4 * k, 4)? == 0, "reserved field of section {}", i) }
        ck!(align < 64, "section {} has alignment 2^{}", i, align);
        ck!(addr % (1u64 << align) == 0, "section {} at {:#x} is not aligned to 2^{}", i, addr, align);
        let e = addr.checked_add(size).ok_or("section address overflow")?;
        ck!(e <= vmsize, "section {} ends at {:#x}, the segment at {:#x}", i, e, vmsize);
        if size > 0 { addrs.push((addr, e, i as usize)) }
        if flags & S_TYPE == S_ZEROFILL {
            ck!(off == 0, "zero-fill section {} has a file offset", i);
            seen_zerofill = true;
        } else {
            ck!(!seen_zerofill, "section {} follows a zero-fill section", i);
            ck!(off >= fileoff && off + size <= fileoff + filesize, "section {} is outside of the segment's part of the file", i);
            if size > 0 { ext.push((off, off + size, format!("section {}", i))) }
        }
        let mut rels = vec![];
        if nreloc == 0 { ck!(reloff == 0, "section {} has no relocations, but an offset for them", i) } else {
            ck!(reloff + nreloc * 8 <= len, "relocations of section {} beyond the file", i);
            ext.push((reloff, reloff + nreloc * 8, format!("the relocations of section {}", i)));
        }
        for j in 0..nreloc {
            let (a, inf) = (r.n(reloff + 8 * j, 4)?, r.n(reloff + 8 * j + 4, 4)?);
            // (a scattered relocation has the top bit of the address set)
            ck!(a <= size && a & 0x8000_0000 == 0, "relocation at {:#x} of section {} of size {:#x}", a, i, size);
            let inf = if own && !le { inf >> 8 | (inf >> 7 & 1) << 24 | (inf >> 5 & 3) << 25 | (inf >> 4 & 1) << 27 | (inf & 15) << 28 } else { inf };
            let rel = Rel { off: a, sym: (inf & 0xff_ffff) as usize, pcrel: inf >> 24 & 1 == 1, len: (inf >> 25 & 3) as u8, ext: inf >> 27 & 1 == 1, typ: (inf >> 28) as u8 };
            if rel.ext { ck!((rel.sym as u64) < nsyms, "relocation against symbol {} of {}", rel.sym, nsyms) } else { ck!(rel.sym >= 1 && rel.sym as u64 <= nsects, "relocation against section {} of {}", rel.sym, nsects) }
            rels.push(rel);
        }
        let (name, segn) = (r.name16(o)?, r.name16(o + 16)?);
        secs.push(Sec { name, seg: segn, addr, size, off, align, flags, rels });
    }
    ext.sort();
    for p in ext.windows(2) { ck!(p[0].1 <= p[1].0, "{} overlaps {}", p[0].2, p[1].2) }
    addrs.sort();
    for p in addrs.windows(2) { ck!(p[0].1 <= p[1].0, "addresses of sections {} and {} overlap", p[0].2, p[1].2) }
    let strs = &b[stroff as usize..(stroff + strsize) as usize];
    if strsize > 0 { ck!(strs[0] == 0 || strs[0] == b' ', "string table does not start with a NUL"); ck!(strs.last() == Some(&0), "string table is not terminated") }
    let mut syms = vec![];
    for i in 0..nsyms {
        let o = symoff + i * es;
        let (strx, typ, sect, desc, value) = (r.n(o, 4)?, r.n(o + 4, 1)? as u8, r.n(o + 5, 1)? as u8, r.n(o + 6, 2)? as u16, r.n(o + 8, w)?);
        ck!(strx > 0 && strx < strsize, "symbol {} has its name at {:#x} of {:#x}", i, strx, strsize);
        let t = &strs[strx as usize..];
        let e = t.iter().position(|&c| c == 0).ok_or("unterminated name")?;
        ck!(typ & N_STAB == 0, "symbol {} is a stab", i);
        match typ & N_TYPE {
            0 => ck!(sect == 0 && value == 0 && typ & N_EXT != 0, "undefined symbol {} is odd", i),
            0xe => {
                ck!(sect >= 1 && sect as u64 <= nsects, "symbol {} is in section {} of {}", i, sect, nsects);
                let s: &Sec = &secs[sect as usize - 1];
                ck!(value >= s.addr, "symbol {} at {:#x} is before its section {}", i, value, sect);
            }
            t => return Err(format!("symbol {} has type {:#x}", i, t)),
        }
        if typ & N_PEXT != 0 { ck!(typ & N_EXT != 0, "symbol {} is private external, but not external", i) }
        syms.push(Sym { name: t[..e].to_vec(), typ, sect, desc, value });
    }
    Ok(Macho { is64, le, cputype, cpusubtype, flags, secs, syms })
}
