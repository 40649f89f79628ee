#!/usr/bin/env python3
"""Compares the readers of mc/ with readelf/llvm-readobj, and the linker model with ld, ld.lld and ld64.lld.
   validate.py READER_STRIDE LINK_STRIDE   (development only: not part of any check; needs a built target/release/mc)"""
import subprocess, sys, os, json, re, glob, shutil, tempfile, struct
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mc = root + "/target/release/mc"
lld = glob.glob(os.path.expanduser("~/.rustup/toolchains/*/lib/rustlib/*/bin/gcc-ld/ld64.lld"))
tmp = tempfile.mkdtemp(prefix="val.")
def run(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
hx = lambda s: s.encode("utf8", "surrogateescape").hex()
bad = []
def elf(o, t):
    r = run("llvm-readobj", "--elf-output-style=JSON", "--sections", "--symbols", "--relocations", "--expand-relocs", o)
    if r.stderr.strip(): return "llvm-readobj: " + r.stderr.decode()[:300]
    try: j = json.loads(r.stdout.decode("utf8", "surrogateescape"), strict=False)[0]
    except Exception as e: return None  # (names that JSON output does not escape)
    L = []
    secs = [x["Section"] for x in j["Sections"]]
    for s in secs: L.append("section %d %s %d %d %d %d %d %d %d %d" % (s["Index"], hx(s["Name"]["Name"]), s["Type"]["Value"], s["Flags"]["Value"], s["Offset"], s["Size"], s["AddressAlignment"], s["Link"], s["Info"], s["EntrySize"]))
    for i, x in enumerate(j["Symbols"]):
        s = x["Symbol"]; sec = s["Section"]["Value"]
        L.append("symbol %d %s %d %d %d %d %d %d" % (i, "" if s["Type"]["Value"] == 3 else hx(s["Name"]["Name"]), s["Value"], s["Size"], s["Binding"]["Value"], s["Type"]["Value"], s["Other"]["Value"], -1 if sec == 0xfff1 else sec))
    R = []
    for x in j["Relocations"]:
        to = secs[x["SectionIndex"]]["Info"]
        for r in x["Relocs"]:
            r = r["Relocation"]; ad = r.get("Addend", 0); ad -= (1 << 64) if ad >= 1 << 63 else 0
            R.append((to, "reloc %d %d %d %s %d" % (to, r["Offset"], r["Type"]["Value"], hx(r["Symbol"]["Name"]), ad)))
    R.sort(key=lambda x: x[0])
    L += [x[1] for x in R]
    return compare(L, t)
def compare(L, t):
    W = [l for l in t.split("\n") if l]
    # (32-bit readers may differ in how the sign of addends is shown)
    f = lambda l: re.sub(r" (\d+)$", lambda m: " %d" % (int(m[1]) - (1 << 32) if int(m[1]) >= 1 << 31 and int(m[1]) < 1 << 32 else int(m[1])), l) if l.startswith("reloc") else l
    L, W = list(map(f, L)), list(map(f, W))
    if L == W: return None
    d = [x for x in L if x not in W][:2], [x for x in W if x not in L][:2]
    return "they say %s, we say %s (%d, %d lines)" % (d[0], d[1], len(L), len(W))
def macho(o, t):
    r = run("llvm-readobj", "--sections", "--symbols", "--relocations", "--expand-relocs", o)
    if r.stderr.strip(): return "llvm-readobj: " + r.stderr.decode()[:300]
    out = r.stdout.decode("utf8", "surrogateescape")
    L = []
    body = lambda name: (re.search(r"^%s \[\n(.*?)^\]" % name, out, re.M | re.S) or [0, ""])[1]
    g = lambda b, k: (re.search(r"^\s+%s: (\S+)" % k, b, re.M) or [0, "0"])[1]
    n = lambda x: int(x, 16) if x.startswith("0x") else int(x)
    for b in re.split(r"^  Section \{\n", body("Sections"), flags=re.M)[1:]:
        nm = [bytes.fromhex(x.replace(" ", "")).rstrip(b"\0").hex() for x in re.findall(r"\(((?:[0-9A-F]{2} ?){16})\)", b)][:2]
        ty = n(re.search(r"Type: .*\((0x[0-9A-F]+)\)", b)[1]); at = n(re.search(r"Attributes \[ \((0x[0-9A-F]+)\)", b)[1]) << 8
        L.append("section %d %s %s %d %d %d %d %d" % (n(g(b, "Index")), nm[0], nm[1], n(g(b, "Address")), n(g(b, "Size")), n(g(b, "Offset")), n(g(b, "Alignment")), ty | at))
    for i, b in enumerate(re.split(r"^  Symbol \{\n", body("Symbols"), flags=re.M)[1:]):
        nm = re.search(r"Name: (.*) \(\d+\)\n", b, re.S)[1]
        typ = n(re.search(r"Type: .*\((0x[0-9A-F]+)\)", b)[1]) | (0x10 if re.search(r"^\s+PrivateExtern$", b, re.M) else 0) | (1 if re.search(r"^\s+Extern$", b, re.M) else 0)
        fl = n(re.search(r"Flags \[ \((0x[0-9A-F]+)\)", b)[1])
        L.append("symbol %d %s %d %d %d %d" % (i, hx(nm), typ, n(re.search(r"Section:.*\((0x[0-9A-F]+)\)", b)[1]), fl, n(g(b, "Value"))))
    rel = body("Relocations")
    # sections are printed by name only, in order of their index; types and symbols are compared in that order
    R = [(n(g(b, "Offset")), n(g(b, "PCRel")), n(g(b, "Length")), n(re.search(r"Type: .*\((\d+)\)", b)[1]) if re.search(r"Type: .*\((\d+)\)", b) else 0) for b in re.split(r"^    Relocation \{\n", rel, flags=re.M)[1:]]
    W = [l.split() for l in t.split("\n") if l.startswith("reloc")]
    W2 = [(int(w[2]), int(w[3]), int(w[4]), int(w[6])) for w in W]
    # (within a section they print in the file's order or the reverse of it)
    if sorted(R) != sorted(W2): return "relocations: they say %s, we say %s" % (R[:3], W2[:3])
    t = "\n".join(l for l in t.split("\n") if not l.startswith("reloc"))
    return compare(L, t)
def one(o):
    t = open(o[:-2] + ".t").read(); b = open(o, "rb").read(4)
    try: r = elf(o, t) if b == b"\x7fELF" else macho(o, t)
    except Exception as e: r = "exception %r" % e
    # binutils must not complain about it either
    if b == b"\x7fELF" and not r:
        x = run("readelf", "-aW", o)
        w = [l for l in x.stderr.decode(errors="replace").split("\n") if l.strip() and "in a non-standard" not in l]
        if w: r = "readelf: " + w[0]
    return o, r
def readers(stride):
    d = tmp + "/o"; os.mkdir(d)
    ok = known = 0
    for id in ["E01", "M01", "E06", "X01", "X03", "X04", "X05", "X06"]:
        for f in glob.glob(d + "/*"): os.remove(f)
        print(id, run(mc, "objects", id, str(stride if id not in ("E06", "X01") else max(1, stride // 500)), d).stdout.decode().strip(), flush=True)
        with ThreadPoolExecutor(8) as ex:
            for o, r in ex.map(one, sorted(glob.glob(d + "/*.o"))):
                # known finding `reloc-layout`: mips64el has a layout of its own, which is not written
                h = open(o, "rb").read(20)
                if r and id == "X01" and h[:6] == b"\x7fELF\2\1" and h[18] == 8: known += 1
                elif r: bad.append((id, o, r)); shutil.copy(o, tmp + "/bad-%s-%s" % (id, os.path.basename(o)))
                else: ok += 1
    print("readers: %d objects read the same, %d differently, %d as the known finding says" % (ok, len(bad), known))

# -------------------------------------------------------------------- linking
def tabs_elf(path):
    b = open(path, "rb").read()
    shoff, = struct.unpack_from("<Q", b, 40); n, = struct.unpack_from("<H", b, 60)
    S = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + 64 * i) for i in range(n)]
    syms, dyn = {}, set()
    for s in S:
        if s[1] in (2, 11):
            st = S[s[6]]
            for i in range(s[5] // 24):
                nm, info, oth, shn, val, sz = struct.unpack_from("<IBBHQQ", b, s[4] + 24 * i)
                name = b[st[4] + nm:b.index(b"\0", st[4] + nm)].decode()
                if s[1] == 2: syms.setdefault(name, []).append(val)
                elif shn and name: dyn.add(name)
    def at(a, k):
        for s in S:
            if s[2] & 2 and s[3] <= a < s[3] + s[5]: return ("zero",) if s[1] == 8 else ("bytes", b[s[4] + a - s[3]:min(s[4] + a - s[3] + k, s[4] + s[5])])
        return None
    return syms, dyn, at
def tabs_macho(path):
    b = open(path, "rb").read()
    ncmds, = struct.unpack_from("<I", b, 16); o = 32; S = []; syms = {}; ext = set()
    for _ in range(ncmds):
        c, sz = struct.unpack_from("<II", b, o)
        if c == 0x19:
            ns, = struct.unpack_from("<I", b, o + 64)
            for i in range(ns):
                q = o + 72 + 80 * i; a, s, f = struct.unpack_from("<QQI", b, q + 32); fl, = struct.unpack_from("<I", b, q + 64)
                S.append((a, s, f, fl & 255))
        if c == 2:
            so, n, st, _ = struct.unpack_from("<IIII", b, o + 8)
            for i in range(n):
                x, ty, se, de, v = struct.unpack_from("<IBBHQ", b, so + 16 * i)
                name = b[st + x:b.index(b"\0", st + x)].decode()[1:]
                if ty & 0xe0 == 0 and ty & 0xe: syms.setdefault(name, []).append(v)
                if ty & 0xe and ty & 1 and not ty & 0x10: ext.add(name)
        o += sz
    def at(a, k):
        for s in S:
            if s[0] <= a < s[0] + s[1]: return ("zero",) if s[3] == 1 else ("bytes", b[s[2] + a - s[0]:s[2] + min(a - s[0] + k, s[1])])
        return None
    return syms, ext, at
def link(d, tool):
    M = [l.split() for l in open(d + "/model").read().split("\n") if l]
    clash = {l[1] for l in M if l[0] == "clash"}
    exported = {l[1] for l in M if l[0] == "exported"}
    objs = sorted(glob.glob(d + "/*.o"))
    out = d + "/out." + os.path.basename(tool)
    if d.endswith("elf"): cmd = [tool, "-e", "use0", "--export-dynamic", "-no-pie", "-z", "notext", "--unresolved-symbols=ignore-all", "--no-gc-sections", "-o", out] + objs; env = None
    else: cmd = [tool, "-arch", "x86_64", "-platform_version", "macos", "10.15", "10.15", "-dylib", "-undefined", "dynamic_lookup", "-no_data_const", "-o", out] + objs; env = None
    r = run(*cmd); err = r.stderr.decode()
    dup = set(re.findall(r"multiple definition of `([^']*)'", err)) | {x.lstrip("_") for x in re.findall(r"duplicate symbol: (\S+)", err)}
    if clash: return None if dup == clash else "clash: model %s, %s says %s" % (clash, tool, err[:300])
    # (the contents are no instructions)
    if "requires MOVQ" in err: return ""
    if r.returncode: return "fails: " + err[:400]
    syms, ext, at = (tabs_elf if d.endswith("elf") else tabs_macho)(out)
    # (a static executable exports nothing without a dynamic section; then there is nothing to compare)
    if d.endswith("macho") and ext - {"dyld_stub_binder"} != exported: return "exported: model %s, %s says %s" % (exported, tool, ext)
    for l in M:
        if l[0] != "slot": continue
        t = syms.get("tab" + l[1])
        if not t: return "no tab" + l[1]
        x = at(t[0] + int(l[2]), 8)
        if l[3] == "unresolved": continue
        a, = struct.unpack("<Q", x[1])
        a = (a - int(l[4])) & ((1 << 64) - 1)
        y = at(a, 4)  # (places that are patched come later than that)
        want = ("zero",) if l[3] == "zero" else ("bytes", bytes.fromhex(l[5])[:4])
        if y is None or y[0] != want[0] or (len(y) > 1 and y[1][:len(want[1])] != want[1]): return "slot %s: %s has %#x: %s instead of %s" % (l[1:3], tool, a, y, want)
    return None
def dynamic(d, tool):
    """what is visible outside: of a shared object"""
    M = [l.split() for l in open(d + "/model").read().split("\n") if l]
    if any(l[0] == "clash" for l in M): return None
    exported = {l[1] for l in M if l[0] == "exported"}
    out = d + "/so." + os.path.basename(tool)
    r = run(tool, "-shared", "-Bsymbolic", "-z", "notext", "-o", out, *sorted(glob.glob(d + "/*.o")))
    if r.returncode:
        # text relocations against what can be preempted are not possible there; nor are hidden undefined symbols
        return "" if re.search(r"can not be used when making a shared object|recompile with -fPIC|hidden symbol", r.stderr.decode()) else "fails: " + r.stderr.decode()[:300]
    _, dyn, _ = tabs_elf(out)
    return None if dyn == exported else "exported: model %s, %s says %s" % (exported, tool, dyn)
def linkers(stride):
    d = tmp + "/l"; os.mkdir(d)
    print(run(mc, "links", str(stride), d).stdout.decode().strip(), flush=True)
    jobs = []
    for c in sorted(glob.glob(d + "/*")):
        for t in (["ld", "ld.lld"] if c.endswith("elf") else lld[:1]): jobs.append((link, c, t))
        if c.endswith("elf"): jobs += [(dynamic, c, "ld"), (dynamic, c, "ld.lld")]
    ok = skipped = nb = 0
    with ThreadPoolExecutor(8) as ex:
        def go(j):
            try: return j[0](j[1], j[2])
            except Exception as e: return "exception %r" % e
        for j, r in zip(jobs, ex.map(go, jobs)):
            if r is None: ok += 1
            elif r == "": skipped += 1
            else: nb += 1; bad.append((j[1], j[2], r))
    print("linking: %d agree, %d not possible, %d differ" % (ok, skipped, nb))
readers(int(sys.argv[1]))
linkers(int(sys.argv[2]))
for b in bad[:40]: print(*b)
if not bad: shutil.rmtree(tmp)
else: print("kept", tmp)
sys.exit(1 if bad else 0)
