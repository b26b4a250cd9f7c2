#!/usr/bin/env python3
"""catchp.py [-j N] [-w WORKERS] [-s SECS] [ID...]: like catch.sh, but in scratch copies under /tmp, several at once; prints one line per planted change."""
import os, json, subprocess, shutil, threading, queue, argparse, time
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("-j", type=int, default=4); ap.add_argument("-w", type=int, default=2); ap.add_argument("-s", type=int, default=150); ap.add_argument("-p", default=None); ap.add_argument("--seed", default="1")
A = ap.parse_args()
ids = A.ids or sorted(os.listdir("/verif/seeded"))
q = queue.Queue(); [q.put(i) for i in ids]
lock = threading.Lock()
def sh(c, cwd, t=900):
    try: r = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=dict(os.environ, VERIF_SEED=A.seed)); return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired: return 124, ""
def work(w):
    d = f"/tmp/catchp/w{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && rm -rf {d}/repo/target && cp -a /verif/sim {d}/sim && cp /verif/known_findings.txt {d}/ && cp -a /verif/findings {d}/ && sed -i 's#/repo#{d}/repo#' {d}/sim/Cargo.toml", "/")
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        p = A.p or json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        sh("git checkout -q -- .", d + "/repo")
        c, o = sh(f"git apply /verif/seeded/{i}/patch.diff", d + "/repo")
        if c: print(i, "does not apply", flush=True); continue
        c, o = sh("rm -rf target/release/.fingerprint/faerie-*; cargo build --release --offline", d + "/sim")
        if c: print(i, "no build", flush=True); continue
        t = time.time()
        c, o = sh(f"sim/target/release/faerie-sim check {p} --root {d} --runs 100000 --secs {A.s} --workers {A.w}", d)
        m = [l for l in o.split("\n") if "VIOLATION" not in l and ":" in l]
        with lock: print(f"{i} {p} exit={c} {time.time() - t:.0f}s | {m[0][:400] if m else ''}", flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(A.j)]
[t.start() for t in ts]; [t.join() for t in ts]
