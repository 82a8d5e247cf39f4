#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness of one property against /repo's working tree and runs it.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: could not decide.
"""
import argparse, hashlib, os, pathlib, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("MTT_REPO", "/repo"))
H = VERIF / "harness"
sys.path.insert(0, str(VERIF))
from registry import PROPS  # noqa: E402


def sh(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append("$ " + " ".join(cmd) + "\n" + p.stdout)
    return p.returncode == 0


def build(pid, spec, bdir):
    """compile every translation unit in parallel, always from the current sources"""
    bdir.mkdir(parents=True, exist_ok=True)
    exe = bdir / "check"
    for old in list(bdir.glob("*.o")) + [exe]:
        if old.exists():
            old.unlink()
    flags = ["-std=" + spec.get("std", "c++17"), "-O1", "-g1", "-fno-omit-frame-pointer", "-w",
             "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",  # an uninitialised local is never the value hoped for
             "-I%s" % H, "-I%s/include" % REPO]
    if spec.get("asan", True):
        flags.append("-fsanitize=address")
    if spec.get("w128"):
        flags += ["-DWITH_W128", '-DW128_HEADER="%s/samples/%s/w128.hpp"' % (REPO, spec["w128"])]
    flags += [f.replace("@REPO@", str(REPO)).replace("@BDIR@", str(bdir)) for f in spec.get("flags", [])]
    probes = spec.get("probes", {})  # macro -> source: does this documented use compile?
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: sh(["g++"] + flags + ["-fsyntax-only", str(H / p)], []), probes.values()))
    flags += ["-D%s=%d" % (m, int(r)) for m, r in zip(probes, res)]
    units = [H / s for s in spec["src"]] + [H / "pbt_main.cpp"]
    units += [REPO / s for s in spec.get("repo_src", ["lib/period.cpp", "lib/AlgorithmPrimitivity.cpp"])]
    logs, jobs = [], []
    for i, u in enumerate(units):
        o = bdir / ("%d_%s.o" % (i, u.stem))
        cc = ["gcc" if u.suffix == ".c" else "g++"]
        fl = [f for f in flags if u.suffix != ".c" or not f.startswith("-std=")]
        jobs.append((cc + fl + ["-c", str(u), "-o", str(o)], o))
    for p in spec.get("programs", []):  # sample programs run as black boxes
        cmd = [c.replace("@REPO@", str(REPO)).replace("@BDIR@", str(bdir)) for c in p]
        jobs.append((cmd, None))
    with ThreadPoolExecutor(8) as ex:
        oks = list(ex.map(lambda j: sh(j[0], logs), jobs))
    objs = [str(o) for _, o in jobs if o]
    ok = all(oks) and sh(["g++"] + [f for f in flags if f.startswith("-fsan")] + objs + ["-o", str(exe)]
                         + spec.get("libs", ["-lntl", "-lgmp", "-lgf2x", "-lpthread"]), logs)
    if not ok:
        print("\n".join(logs)[-6000:])
        print("%s: the harness does not build against %s" % (pid, REPO))
        return None
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there; every check builds itself")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER_OVERRIDE", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale")
    ap.add_argument("--build-dir")
    a = ap.parse_args()
    if a.setup:
        return 0 if sh(["g++", "--version"], []) else 2
    spec = PROPS[a.id]
    bdir = pathlib.Path(a.build_dir) if a.build_dir else VERIF / "build" / a.id
    exe = build(a.id, spec, bdir)
    if exe is None:
        return 2
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:"
               "max_malloc_fill_size=4096:malloc_fill_byte=190:abort_on_error=0:exitcode=99", PBT_BUILD_DIR=str(bdir), PBT_REPO=str(REPO), MALLOC_PERTURB_="173")
    known = []
    for line in (VERIF / "known_findings.txt").read_text().splitlines():
        f = line.split(None, 3)  # known: property=ID key=KEY what fails
        if len(f) == 4 and f[0] == "known:" and f[1] == "property=" + a.id:
            known.append(f[2][4:] + "\t" + f[3])
    env["PBT_KNOWN"] = "\n".join(known)
    if a.replay:
        return subprocess.run([str(exe), "replay", "--file", a.replay], env=env).returncode
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    cmd = [str(exe), "run", "--tier", a.tier, "--seed", str(a.seed), "--evidence", str(ev / (a.id + ".json")),
           "--replays", str(VERIF / "replays" / a.id), "--jobs", str(min(8, os.cpu_count() or 1)),
           "--budget", str(spec.get("budget", 600))]
    if a.only:
        cmd += ["--only", a.only]
    if a.scale:
        cmd += ["--scale", a.scale]
    rc = subprocess.run(cmd, env=env).returncode
    return rc if rc in (0, 1) else 2


sys.exit(main())
