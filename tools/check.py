#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  check.py P01 [--tier quick|thorough] [--seed N] [--versions a,b]   exit 0 / 1
  check.py --replay FILE                                              exit 0 (passes now) / 1
  check.py --build                                                    builds every harness

VERIF_SEED and VERIF_TIER are the defaults of --seed and --tier. The generated-input search itself is
the Rust crate in harness/, built once per protocol version (the versions are exclusive features).
"""
import argparse, fcntl, hashlib, json, os, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import literals

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
VERSIONS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
STALL_S = 240  # a case that takes this long ends the run as an error, not as a violation


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=e.get("RUSTUP_TOOLCHAIN", "stable"), CARGO_TERM_COLOR="never")
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def binary(version):
    return os.path.join(BUILD, version, "debug", "mcp-harness")


def build_one(version, digest):
    target = os.path.join(BUILD, version)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo_hash")
    crate = os.path.join(VERIF, "harness")
    base = ["cargo", "--offline"]
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != digest and os.path.exists(os.path.join(target, "debug")):
        # cargo looks at modification times only: rebuild whenever the content differs
        if os.path.exists(stamp):
            os.remove(stamp)
        subprocess.run(base + ["clean", "-p", "rust-mcp-schema", "--target-dir", target], cwd=crate, env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = base + ["build", "--no-default-features", "--features", "v" + version, "--target-dir", target]
    r = subprocess.run(cmd, cwd=crate, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return version, r.stdout
    with open(stamp, "w") as f:
        f.write(digest)
    return version, None


def build(versions):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = tree_hash()
        with ThreadPoolExecutor(len(versions)) as ex:
            for v, err in ex.map(lambda v: build_one(v, digest), versions):
                if err:
                    die(f"harness for {v} does not build against {REPO}:\n{err[-6000:]}")


# the quick tier of a property takes about half a minute
QUICK_SCALE = {"P04": 200, "P06": 600, "P09": 400, "P10": 1000, "P11": 800, "P12": 200, "P13": 500, "P16": 200, "P17": 1000, "P18": 150, "P19": 600, "P20": 200,
               "P21": 600, "P22": 250, "P14": 1000}


def run_one(prop, version, tier, seed, scale, work):
    out = os.path.join(work, f"{prop}-{version}.out.json")
    prog = os.path.join(work, f"{prop}-{version}.progress")
    for f in (out, prog):
        if os.path.exists(f):
            os.remove(f)
    dic = os.path.join(work, f"{prop}-{version}.dict.json")
    base = json.load(open(os.path.join(VERIF, "harness", "dict_base.json")))
    words = literals.dictionary(REPO, version, base)
    with open(dic, "w") as f:
        json.dump(words, f)
    cmd = [binary(version), "run", "--dict", dic, "--prop", prop, "--seed", str(seed), "--tier", tier, "--scale", str(scale),
           "--known", KNOWN, "--replay-dir", os.path.join(VERIF, "evidence", "replays"), "--progress", prog, "--out", out]
    err = open(os.path.join(work, f"{prop}-{version}.err"), "w+")
    p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env(), cwd=VERIF)
    last, since = None, time.time()
    while True:
        try:
            p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            now = open(prog).read() if os.path.exists(prog) else ""
            if now != last:
                last, since = now, time.time()
            elif time.time() - since > STALL_S:
                p.kill()
                p.wait()
                return version, None, f"no progress for {STALL_S} s at {now.strip()}", None
    if p.returncode == 0 and os.path.exists(out):
        return version, json.load(open(out)), None, None
    err.seek(0)
    tail = err.read()[-2000:]
    if p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE) and os.path.exists(prog):
        text = open(prog).read().split()
        if len(text) >= 2:
            sub, index = text[0], int(text[-1])
            rep = {"property": prop, "version": version, "sub": sub, "index": index, "seed": seed, "tape": None, "dict": words,
                   "signature": f"process died with signal {-p.returncode}", "message": tail}
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{version}-{sub}-crash.json")
            json.dump(rep, open(path, "w"), indent=1)
            again = subprocess.run([binary(version), "replay", "--file", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if again.returncode == p.returncode:
                frag = {"version": version, "evaluations": index + 1, "distinct_nontrivial": 0, "subs": [], "known": [],
                        "violations": [{"sub": sub, "signature": rep["signature"], "message": f"case {index} kills the process", "replay": path}]}
                return version, frag, None, None
    return version, None, f"harness ended with {p.returncode}: {tail}", None


def write_evidence(prop, tier, seed, frags, rule, assumptions, wall):
    samples, classes = [], {}
    for f in frags:
        for s in f["subs"]:
            samples += [f"{f['version']} {x}" for x in s["samples"][:1]]
            c = classes.setdefault(s["sub"], {"cases": 0, "distinct_nontrivial": 0, "classes": {}})
            c["cases"] += s["cases"]
            c["distinct_nontrivial"] += s["distinct_nontrivial"]
            for k, n in s["classes"].items():
                c["classes"][k] = c["classes"].get(k, 0) + n
    for c in classes.values():  # keep the file readable
        top = sorted(c["classes"].items(), key=lambda x: -x[1])
        c["classes"] = dict(top[:40])
        if len(top) > 40:
            c["further_classes"] = len(top) - 40
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in frags),
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in frags),
            "rule": rule,
            "samples": samples[:24],
            "sub_checks": classes,
            "per_version": {f["version"]: {"evaluations": f["evaluations"], "distinct_nontrivial": f["distinct_nontrivial"],
                                           "input_stream": f.get("stream")} for f in frags},
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": sum(len(f["violations"]) for f in frags),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)


def replay(path):
    rep = json.load(open(path))
    v = rep["version"]
    build([v])
    r = subprocess.run([binary(v), "replay", "--file", os.path.abspath(path)], cwd=VERIF, env=env())
    sys.exit(0 if r.returncode == 0 else 1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=int, help="per cent of the case numbers the sub-checks declare")
    ap.add_argument("--versions")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.replay:
        replay(a.replay)
    if a.build:
        build(VERSIONS)
        print("built " + " ".join(VERSIONS))
        return
    if not a.prop:
        die("which property?")
    meta = json.load(open(os.path.join(VERIF, "tools", "props.json")))[a.prop]
    versions = a.versions.split(",") if a.versions else [v for v in VERSIONS if v in meta.get("versions", VERSIONS)]
    if a.scale is None:
        a.scale = QUICK_SCALE.get(a.prop, 300) if a.tier == "quick" else 100
    t0 = time.time()
    build(versions)
    t1 = time.time()
    work = os.path.join(BUILD, "runs")
    os.makedirs(work, exist_ok=True)
    with ThreadPoolExecutor(len(versions)) as ex:
        results = list(ex.map(lambda v: run_one(a.prop, v, a.tier, a.seed & (2**64 - 1), a.scale, work), versions))
    broken = [(v, e) for v, _, e, _ in results if e]
    frags = [f for _, f, e, _ in results if f]
    write_evidence(a.prop, a.tier, a.seed, frags, meta["rule"], meta.get("assumptions", []), time.time() - t0)
    bad = False
    for f in frags:
        for k in f["known"]:
            print(f"KNOWN-FINDING: property={a.prop} {k}", flush=True)
        for v in f["violations"]:
            bad = True
            text = "".join(ch if ch.isprintable() else ch.encode("unicode_escape").decode() for ch in v["signature"] + "\0" + v["message"][:1500])
            head, _, rest = text.partition("\\x00")
            print(f"{a.prop} [{f['version']} {v['sub']}] {head}\n    {rest}")
            print(f"VIOLATION property={a.prop} replay={v['replay']}", flush=True)
    n = sum(f["evaluations"] for f in frags)
    print(f"{a.prop} {a.tier} seed {a.seed}: {n} cases over {len(frags)} versions, build {t1 - t0:.1f} s, run {time.time() - t1:.1f} s")
    if bad:
        sys.exit(1)
    if broken:
        die("; ".join(f"{v}: {e}" for v, e in broken))


if __name__ == "__main__":
    main()
