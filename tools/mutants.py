#!/usr/bin/env python3
"""mutants.py [-j N] [-n COUNT] [-s SEED] [--runs R] OUT.jsonl [FILE...]: small random changes of /repo/src, each tried in a scratch
copy under /tmp: which check notices it first? Survivors are then run against the repository's tests. Nothing here is registered."""
import sys, re, os, random, subprocess, json, shutil, threading, queue, argparse
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("files", nargs="*"); ap.add_argument("-j", type=int, default=4); ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", type=int, default=1); ap.add_argument("--runs", type=int, default=1500)
A = ap.parse_args()
files = A.files or ["src/artifact.rs", "src/artifact/decl.rs", "src/elf.rs", "src/mach.rs", "src/target.rs"]
SW = {"STB_GLOBAL": "STB_WEAK", "STB_LOCAL": "STB_GLOBAL", "STB_WEAK": "STB_GLOBAL", "STT_FUNC": "STT_OBJECT", "STV_HIDDEN": "STV_PROTECTED", "STV_PROTECTED": "STV_DEFAULT", "R_X86_64_32": "R_X86_64_64", "R_X86_64_64": "R_X86_64_32", "PLT32": "PC32", "SHF_WRITE": "SHF_ALLOC", "SHT_NOBITS": "SHT_PROGBITS", "is_local": "is_global", "is_global": "is_local", "is_weak": "is_local", "u32": "u16", "u64": "u32", "i64": "i32", "len": "capacity", "Some(": "None; (", "push": "insert", "IndexMap": "HashMap", "BTreeSet": "HashSet", "sizeof_bits": "sizeof_strtab", "CODE_SECTION_INDEX": "DATA_SECTION_INDEX", "DATA_SECTION_INDEX": "CSTRING_SECTION_INDEX", "BSS_SECTION_INDEX": "DATA_SECTION_INDEX", "nlocals": "nsections as usize", "clone()": "clone().into()", "size()": "file_size()", "file_size()": "size()", "write_all": "write", "extend": "append", "get": "remove", "contains_key": "is_empty", ".rev()": "", ".skip(": ".take(", ".chain(": ".zip(", ".any(": ".all(", ".all(": ".any(", ".max(": ".min(", "filter(|": "filter(|"}
OPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" += ", " = "), (" * ", " + "), (" && ", " || "), (" || ", " && "), (" |= ", " = "), (" | ", " & "), ("true", "false"), ("false", "true"), (" % ", " / "), ("<<", ">>"), ("if let ", "if false && let "), ("?;", ".ok();"), ("return ", "")]
def muts(path):
    src = open("/repo/" + path).read().split("\n")
    end = next((i for i, l in enumerate(src) if "#[cfg(test)]" in l), len(src))
    out = []
    for i, l in enumerate(src[:end]):
        t = l.strip()
        if not t or t.startswith(("//", "#", "use ", "debug!", "///", "pub struct", "struct", "type ")): continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(re.escape(a), code): out.append((i, l[:m.start()] + b + l[m.end():]))
        for a, b in SW.items():
            for m in re.finditer(r"(?<![A-Za-z0-9_])" + re.escape(a) + (r"(?![A-Za-z0-9_])" if a[-1].isalnum() else ""), code): out.append((i, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r"(?<![A-Za-z0-9_.\"#])(0x[0-9a-f]+|\d+)(?![0-9a-z_.])", code):
            v = int(m.group(1), 0)
            for w in {v + 1, v - 1, 0} - {v}:
                if w >= 0: out.append((i, l[:m.start()] + str(w) + l[m.end():]))
        if t.endswith(";") and not t.startswith(("let", "return", "}", "break")) and t.count("(") == t.count(")") and "{" not in t: out.append((i, ""))
        m = re.match(r"(\s*(?:\} else )?if )(?!let )(.*)( \{)$", code)
        if m: out.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3))); out.append((i, m.group(1) + "true || " + m.group(2) + m.group(3))); out.append((i, m.group(1) + "false && " + m.group(2) + m.group(3)))
        if re.match(r"\s*\.\w+\(.*\)$", code): out.append((i, ""))
    # swap two neighbouring statements
    for i in range(end - 1):
        a, b = src[i].strip(), src[i + 1].strip()
        if a.endswith(";") and b.endswith(";") and not a.startswith(("let", "use", "//", "}")) and not b.startswith(("let", "use", "//", "}")): out.append((i, src[i + 1] + "\x00" + src[i]))
    r = []
    for i, n in out:
        s = list(src)
        if "\x00" in n: s[i], s[i + 1] = n.split("\x00")
        else: s[i] = n
        t = "\n".join(s)
        if t != "\n".join(src): r.append((path, i + 1, src[i].strip(), n.strip().replace("\x00", " ; "), t))
    return r
random.seed(A.s)
every = [m for f in files for m in muts(f)]
done = set()
if os.path.exists(A.out): done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(A.out))}
seen = set(); pick = []
random.shuffle(every)
for m in every:
    k = (m[0], m[1], m[3])
    if k in seen or k in done: continue
    seen.add(k); pick.append(m)
pick = pick[:A.n]
print(len(every), "possible,", len(pick), "picked", flush=True)
q = queue.Queue(); [q.put(m) for m in pick]
lock = threading.Lock()
BASE = "/tmp/mut"
def sh(c, cwd, t=300):
    try: r = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=dict(os.environ, VERIF_SEED="7")); return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, ""
def work(w):
    d = f"{BASE}/w{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && rm -rf {d}/repo/.git {d}/repo/target && cp -a /verif/sim {d}/sim && cp /verif/known_findings.txt {d}/ && cp -a /verif/findings {d}/ && sed -i 's#/repo#{d}/repo#' {d}/sim/Cargo.toml", "/")
    while True:
        try: f, ln, old, new, text = q.get_nowait()
        except queue.Empty: break
        orig = open("/repo/" + f).read()
        open(f"{d}/repo/{f}", "w").write(text)
        r = dict(file=f, line=ln, old=old, new=new)
        c, o = sh("rm -rf target/release/.fingerprint/faerie-*; cargo build --release --offline", d + "/sim")
        if c: r["result"] = "no build"
        else:
            order = {"src/elf.rs": [10, 8, 9, 14, 18, 20], "src/mach.rs": [13, 11, 12, 14, 18, 20], "src/target.rs": [18, 20]}.get(f, [4, 5, 6, 17, 7, 3])
            order += [i for i in range(1, 22) if i not in order]
            r["result"] = "survived"
            for p in order:
                c, o = sh(f"timeout 200 sim/target/release/faerie-sim check C{p:02} --root {d} --runs {A.runs} --secs 15 --workers 2", d, 250)
                if c == 1: r["result"] = f"C{p:02}"; break
                if c != 0: r["result"] = f"C{p:02} exit {c} {o[-200:]}"; break
            if r["result"] == "survived":
                c, o = sh("CARGO_TARGET_DIR=target cargo test --workspace --offline 2>&1 | grep -E '^test .*FAILED' ", d + "/repo")
                if o.strip(): r["result"] = "survived, killed by tests"
        open(f"{d}/repo/{f}", "w").write(orig)
        if r["result"] != "no build":
            with lock: open(A.out, "a").write(json.dumps(r) + "\n"); print(r["result"], f, ln, "|", old, "=>", new, flush=True)
        else:
            with lock: open(A.out, "a").write(json.dumps(r) + "\n")
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(A.j)]
[t.start() for t in ts]; [t.join() for t in ts]
