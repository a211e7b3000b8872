#!/usr/bin/env python3
"""Author's tool: measure what the checks notice.  mutate.py FILE-REGEX COUNT SEED [WORKERS]

Makes small changes to a scratch copy of the library (never /repo), one at a time, rebuilds the
driver from it and runs the checks that concern the changed file (quick tier).  Changes no check
notices are printed, to be judged by hand (equivalent, out of scope, or a gap to close).
"""
import os, random, re, shutil, subprocess, sys, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
 (r"attrblock", "C07 C08"), (r"bbox", "C12 C11 C14 C22"), (r"cache", "C01 C02 C03"), (r"colorlut", "C21"),
 (r"colorgrade|node/grade", "C13 C10 C07 C21 C08 C24"), (r"color", "C21 C24 C13 C18"), (r"config|systemmem", "C23"),
 (r"data/|math/|data\.rs", "C14 C22 C16 C24 C11"), (r"tde4|lens|ldpk|brownian", "C15 C10 C07 C08"), (r"deform|transform", "C14 C15 C12 C10 C07 C08"),
 (r"geom", "C22"), (r"graph", "C04 C05 C06 C25 C03 C09"), (r"hashutils", "C08 C09"), (r"pathutils", "C19"),
 (r"write_image", "C18 C25 C07"), (r"read_image", "C17 C19 C07 C10 C03"), (r"imageio|oiio_utils|imagespec|imagebuffer", "C17 C18 C16 C11"),
 (r"crop", "C12 C10 C07 C08 C03"), (r"merge", "C11 C10 C07 C08 C03"), (r"resample", "C16 C10 C07 C08 C03"), (r"viewer|bake", "C24 C18 C10 C12 C07 C08 C03"),
 (r"pixelremap", "C14 C15"), (r"xformcolor", "C24 C21"), (r"pixelblock|pixel\.rs", "C20 C11 C12 C24"), (r"stream", "C20 C24 C10 C14 C21"), (r"null", "C10 C06"), (r"node", "C06 C07 C10 C04"), (r".", "C06 C24 C17"),
]
SUBS = [(r"==", "!="), (r"!=", "=="), (r"(?<![-=<>])<(?![<=a-zA-Z&(\[])", "<="), (r"<=", "<"), (r"(?<![-=>])>(?![>=:(,;{)])(?= )", ">="), (r">=", ">"), (r"&&", "||"), (r"\|\|(?= )", "&&"),
 (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"std::min", "std::max"), (r"std::max", "std::min"),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.\"'])(\d+)(?![\w.\"'])", "+1"), (r"(?<![\w])(\d+\.\d+)", "f+1"), (r"_x\b", "_y"), (r"_y\b", "_x"), (r"_r\b", "_g"), (r"_b\b", "_g"), (r"_a\b", "_r"), (r"\bwidth\b", "height"), (r"\bheight\b", "width"),
 (r"min_", "max_"), (r"max_", "min_"), (r"\bdata_window\b", "display_window"), (r"\bdisplay_window\b", "data_window"), (r"if !", "if "), (r"if (?!let|!)", "if !"), (r"\.round\(\)", ".floor()"), (r"\bcontinue;", ""), (r"\bbreak;", ""), (r"_in\b", "_out"), (r"DELETE", None)]
def mutants(path):
    L = open(path).read().split("\n"); out = []
    for i, l in enumerate(L):
        if "#[cfg(test)]" in l and path.endswith(".rs"): break
        t = l.strip()
        if not t or t.startswith(("//", "#", "use ", "*", "/*", "mod ", "pub mod", "extern", "namespace", "namespace")) or re.match(r"(debug|warn|error|info|println|eprintln|log)!?", t) or "log->" in t or "ocg_mc" in t or "std::cerr" in t or "std::cout" in t: continue
        prev = " ".join(L[max(0, i - 3):i])
        if re.search(r"(debug|warn|error|info)!\([^;]*$", prev): continue
        if "fn " in t and t.endswith(("{", ",", "(")) and False: continue
        code = re.sub(r"//.*", "", l)
        for rx, to in SUBS:
            if to is None:
                if code.rstrip().endswith(";") and code.count("(") == code.count(")") and code.count("{") == code.count("}") and not t.startswith(("let ", "return", "}", "auto ", "const ", "static ", "type ", "pub ")) : out.append((i, " " * 4 + "/* deleted */"))
                continue
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                if to == "+1": r = str(int(m.group(0)) + 1) if len(m.group(0)) < 9 else None
                elif to == "f+1": r = m.group(0) + "1" if float(m.group(0)) else "0.25"
                else: r = to
                if r is None: continue
                out.append((i, l[:m.start()] + r + l[m.end():]))
    return out
def main():
    rx, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); nw = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    fs = sorted(f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "src"], text=True).split() if f.endswith((".rs", ".cpp")) and "_cxxbridge" not in f and "cxxbridge.rs" not in f and "logger" not in f and re.search(rx, f))
    allm = [(f, i, n) for f in fs for i, n in mutants("/repo/" + f)]
    random.Random(seed).shuffle(allm); todo = queue.Queue(); print("%d mutants of %d files, running %d" % (len(allm), len(fs), min(count, len(allm))), flush=True)
    for m in allm[:count]: todo.put(m)
    stat = {}; lock = threading.Lock()
    def work(k):
        root = "/tmp/mut%d" % k; shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
        subprocess.run(["git", "clone", "-q", "/repo", root + "/repo"], check=True)
        env = dict(os.environ, OCG_REPO=root + "/repo", OCG_MC_BUILD=root + "/build")
        while True:
            try: f, i, n = todo.get_nowait()
            except queue.Empty: break
            p = root + "/repo/" + f; src = open(p).read(); L = src.split("\n"); old = L[i]; L[i] = n; open(p, "w").write("\n".join(L)); res = "SURVIVED"
            try:
                b = subprocess.run([sys.executable, VERIF + "/tools/build.py"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
                if b.returncode: res = "nobuild"
                else:
                    for c in next(v for r, v in MAP if re.search(r, f)).split():
                        try: r = subprocess.run([root + "/build/mc", c, "--tier", "quick", "--workers", "4", "--known", VERIF + "/known_findings.txt"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900).returncode
                        except subprocess.TimeoutExpired: r = 99
                        if r: res = "%s(%d)" % (c, r); break
            finally: open(p, "w").write(src)
            with lock:
                stat[res] = stat.get(res, 0) + 1
                print("%-9s %s:%d\n   - %s\n   + %s" % (res, f, i + 1, old.strip(), n.strip()), flush=True)
        shutil.rmtree(root, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]; print(stat)
main()
