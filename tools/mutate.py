"""Sensitivity sweep (not a check): small text mutants of the library that pass its own tests are run against the checks.

mutate.py gen  OUT.json [FILE.cc ...]   candidates
mutate.py test IN.json OUT.json         keeps those that compile and pass the repository's tests
mutate.py run  IN.json OUT.jsonl [FRACTION] [WORKERS] [C01,C02]   runs the checks; survivors have "killed": null
Scratch copies live under /tmp/mw.
"""
import json, os, random, re, subprocess, sys, threading, queue
W = "/tmp/mw"
SRC = "/repo/src"
CC = "g++ -g -DDEBUG -std=c++11 -include limits -w -c".split()
ORDER = {
    "kdb.cc": "C01 C04 C28 C11 C09 C22 C03 C29 C27 C20 C13 C30 C06 C32 C26 C12",
    "kdbx.cc": "C02 C05 C28 C10 C14 C08 C22 C03 C19 C29 C27 C20 C13 C30 C06 C32 C26 C12 C25",
    "cipher.cc": "C16 C17 C31 C07 C01 C26", "random.cc": "C31 C25 C02 C26 C21", "stream.cc": "C14 C15 C17 C02 C08 C13 C30 C26 C12 C10",
    "io.cc": "C04 C01 C28 C10 C11 C30 C14 C12", "key.cc": "C07 C28 C30 C10 C06 C20 C26 C12", "util.cc": "C22 C21 C04 C05", "entry.cc": "C23 C24 C27 C29 C26 C01 C02 C11", "group.cc": "C23 C24 C27 C29 C26 C01 C02 C32 C12",
    "metadata.cc": "C23 C02 C29 C26",
}
def mask(line):
    line = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + "~" * (len(m[0]) - 2) + '"', line)
    line = re.sub(r"'(?:\\.|[^'\\])'", lambda m: "'" + "~" * (len(m[0]) - 2) + "'", line)
    return re.sub(r"//.*", lambda m: " " * len(m[0]), line)
SUB = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\+=", "-="), (r"\+\+(?=\w)", "--"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[\w(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r"\buint64_t\b", "uint32_t"), (r"\bint64_t\b", "int32_t"), (r"\buint32_t\b", "uint16_t"), (r"\buint16_t\b", "uint8_t"), (r" % ", " / "), (r" / ", " * ")]
def gen(out, files):
    ms = []
    for f in files:
        L = open(os.path.join(SRC, f)).read().split("\n")
        body, comment = False, False
        start = None
        for i, l in enumerate(L):
            m = mask(l)
            if re.match(r"\s*(//|#|\*|/\*)", l) or not m.strip(): continue
            if len(re.findall(r"0x[0-9a-fA-F]{2}", m)) > 4: continue
            def add(nl, kind):
                if nl != l: ms.append(dict(file=f, line=i + 1, old=l, new=nl, kind=kind))
            for a, b in SUB:
                for x in re.finditer(a, m): add(l[:x.start()] + b + l[x.end():], a.strip() + "->" + b.strip())
            for x in re.finditer(r"(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?=[uUlL]*\b)(?!\w*_)", m):
                v = int(x[1], 0)
                for d in (1, -1):
                    if v + d >= 0: add(l[:x.start()] + (hex(v + d) if "x" in x[1] else str(v + d)) + l[x.end():], "const%+d" % d)
            x = re.match(r"(\s*(?:\} else )?if \()(.*)(\)\s*\{?)$", l)
            if x and x[2].count("(") == x[2].count(")"):
                add(x[1] + "(" + x[2] + ") || true" + x[3], "if-true"); add(x[1] + "(" + x[2] + ") && false" + x[3], "if-false")
            prev = next((mask(p).rstrip() for p in reversed(L[:i]) if mask(p).strip()), "")
            if re.match(r"\s+[\w*(]", l) and re.search(r"[;{})]$|:$", prev):   # a statement starts here
                k, txt = i, ""
                while k < len(L) and k < i + 8:
                    txt += mask(L[k]) + " "
                    if mask(L[k]).rstrip().endswith((";", "{", "}")): break
                    k += 1
                t = txt.strip()
                if t.endswith(";") and not re.match(r"(return\b.*|using|typedef|case|default|public|private|const\b|static|auto\b|for\b|while\b|if\b|\} )", t):
                    ind = re.match(r"\s*", l)[0]
                    ms.append(dict(file=f, line=i + 1, old="\n".join(L[i:k + 1]), new=ind + ";", kind="delete"))
                if t.startswith("return") and t.endswith(";"): pass
    for n, m in enumerate(ms): m["id"] = n
    json.dump(ms, open(out, "w"), indent=0)
    print(len(ms), {f: sum(m["file"] == f for m in ms) for f in files})
def apply(m, dst):
    L = open(os.path.join(SRC, m["file"])).read().split("\n")
    n = m["old"].count("\n") + 1
    at = [i for i in range(len(L)) if "\n".join(L[i:i + n]) == m["old"]]   # the nearest place, should lines have moved
    p = min(at, key=lambda i: abs(i - m["line"] + 1))
    L[p:p + n] = [m["new"]] + [""] * (n - 1)
    open(os.path.join(dst, m["file"]), "w").write("\n".join(L))
def par(items, fn, n):
    q = queue.Queue(); [q.put(x) for x in items]
    def w(k):
        while True:
            try: x = q.get_nowait()
            except queue.Empty: return
            fn(k, x)
    T = [threading.Thread(target=w, args=(k,)) for k in range(n)]
    [t.start() for t in T]; [t.join() for t in T]
def sh(c, t=60, **kw):
    try: return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **kw)
    except subprocess.TimeoutExpired: return None
def test(inp, out):
    ms = json.load(open(inp)); keep = []; lock = threading.Lock(); cnt = [0, 0, 0]
    subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, check=True)
    D = "/repo/build/debug/obj"
    def one(k, m):
        d = "%s/t%d" % (W, k)
        if not os.path.exists(d): subprocess.run("mkdir -p %s && cp -a /repo/src /repo/test %s/" % (d, d), shell=True, check=True)
        subprocess.run(["cp", "-a", "/repo/src/.", d + "/src/"])
        apply(m, d + "/src")
        o = d + "/m.o"
        r = sh(CC + [d + "/src/" + m["file"], "-o", o], 120)
        with lock: cnt[0] += 1
        if r is None or r.returncode: return
        objs = [D + "/" + f for f in os.listdir(D) if f.endswith(".o") and f != m["file"][:-3] + ".o"] + [D + "/test/" + f for f in os.listdir(D + "/test") if f.endswith(".o")] + [o]
        r = sh(["g++", "-o", d + "/test.exe"] + objs + "-Wl,--no-as-needed -lcrypto -lz -Wl,--whole-archive -lgtest -lgtest_main -Wl,--no-whole-archive".split())
        if r is None or r.returncode: return
        r = sh([d + "/test.exe"], 20, cwd=d, env=dict(os.environ, TZ="CET"))
        with lock:
            cnt[1] += 1
            if r is not None and r.returncode == 0: keep.append(m); cnt[2] += 1
            if cnt[0] % 100 == 0: print(cnt, flush=True)
    par(ms, one, 7)
    keep.sort(key=lambda m: m["id"]); json.dump(keep, open(out, "w"), indent=0); print(cnt, len(keep))
def run(inp, out, frac, workers, only):
    sys.path.insert(0, "/verif"); import check
    done = set()
    if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
    ms = [m for m in json.load(open(inp)) if m["id"] not in done]; lock = threading.Lock()
    def one(k, m):
        d = "%s/r%d" % (W, k); b = "%s/b%d" % (W, k)
        subprocess.run("mkdir -p %s %s && rm -rf %s/src && cp -a /repo/src /repo/test %s/" % (d, b, d, d), shell=True, check=True)
        if len(os.listdir(b)) > 400: subprocess.run("find %s -type f -mmin +20 -delete" % b, shell=True)
        apply(m, d + "/src"); env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=b, VERIF_EVIDENCE=W + "/ev%d" % k); res = dict(m, killed=None, ran=[])
        for c in (only or ORDER.get(m["file"], "C01 C02 C04 C05")).split():
            n = max(8, int(check.SPEC[c]["phases"][0]["quick"] * frac)) if len(check.SPEC[c]["phases"]) == 1 else None
            cmd = ["python3", "/verif/check.py", c] + (["--n", str(n)] if n else ["--n", str(max(66, int(check.SPEC[c]["phases"][0]["quick"] * frac)))])
            r = sh(cmd, 900, env=env)
            rc = r.returncode if r else "timeout"; res["ran"].append([c, rc])
            if rc == 1: res["killed"] = c; res["how"] = re.findall(rb"\[([^\]]+)\] x", r.stdout)[0].decode() if re.findall(rb"\[([^\]]+)\] x", r.stdout) else ""; break
            if rc not in (0, 1) and r: res["note"] = r.stdout[-300:].decode("utf-8", "replace")
        with lock:
            open(out, "a").write(json.dumps(res) + "\n"); print(m["id"], m["file"], m["line"], m["kind"], res["killed"], "" if res["killed"] else m["old"].strip()[:70] + "  =>  " + m["new"].strip()[:70], flush=True)
        subprocess.run("find %s -name '*-[0-9a-f]*' -mmin +3 -size +1M -delete" % b, shell=True)
    random.Random(5).shuffle(ms); par(ms, one, workers)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "gen": gen(a[1], a[2:] or sorted(ORDER))
    elif a[0] == "test": test(a[1], a[2])
    else: run(a[1], a[2], float(a[3]) if len(a) > 3 else 0.1, int(a[4]) if len(a) > 4 else 3, a[5].replace(",", " ") if len(a) > 5 else None)
