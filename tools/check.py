#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay part:index] [--only part]

Rebuilds the driver from /repo's working tree and runs one property's exploration.
Exit 0: held on everything explored; 1: violation; other: no answer.
"""
import os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("OCG_MC_BUILD", os.path.join(VERIF, ".build"))


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    if "--tier" not in args:
        args += ["--tier", os.environ.get("VERIF_TIER", "quick")]
    ev = os.environ.get("OCG_MC_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(prop + "-replay-"):
            os.unlink(os.path.join(ev, f))
    b = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "build.py")], stdout=subprocess.PIPE)
    if b.returncode != 0:
        return 3
    exe = b.stdout.decode().split()[-1]
    hook = open(os.path.join(OUT, "hook")).read() == "1"
    cmd = [exe, prop, "--seed", os.environ.get("VERIF_SEED", "1"), "--known", os.path.join(VERIF, "known_findings.txt")]
    if "--replay" not in args:
        cmd += ["--evidence", os.path.join(ev, prop + ".json")]
    if not hook:
        cmd.append("--no-hook")
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("OPENCOMPGRAPH") or k in ("OCIO", "OPENIMAGEIO_OPTIONS", "RUST_LOG", "RUST_BACKTRACE"):
            del env[k]
    r = subprocess.run(cmd + args, env=env, cwd=VERIF).returncode
    return r if r >= 0 else 2


sys.exit(main())
