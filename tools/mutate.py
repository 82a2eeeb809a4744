#!/usr/bin/env python3
"""Mutation run: changes single lines of the library at random, keeps those that build and pass the
project's tests, and runs the checks of the changed file against each until one reports it.
  mutate.py --n 100 --seed 1 --lanes 4 --out FILE [--files tar,zip]
The survivors (no check reports them) are to be looked at by hand: equal programs, or gaps."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "lib/tarinputstream.cpp": "C15 C31 C34 C29 C23 C24 C27",
    "lib/zipinputstream.cpp": "C16 C31 C34 C29 C23 C24 C27",
    "lib/dostime.cpp": "C16",
    "lib/arinputstream.cpp": "C17 C31 C34 C29 C23 C24 C27",
    "lib/cpioinputstream.cpp": "C18 C31 C34 C29 C23 C24 C27",
    "lib/rpminputstream.cpp": "C19 C31 C34 C29 C23 C24 C27",
    "lib/mailinputstream.cpp": "C20 C31 C23 C24 C27",
    "lib/sdfinputstream.cpp": "C21 C31 C23 C24 C27",
    "lib/oleinputstream.cpp": "C22 C31 C34 C29 C23 C24 C27",
    "lib/gzipinputstream.cpp": "C08 C11 C31 C03 C24 C27",
    "lib/gzipcompressstream.cpp": "C08 C03 C02 C28",
    "lib/bz2inputstream.cpp": "C09 C11 C31 C03 C24 C27",
    "lib/lzmainputstream.cpp": "C10 C11 C31 C03 C24 C27",
    "lib/lzma/LzmaDec.c": "C10 C11 C27",
    "lib/base64inputstream.cpp": "C12 C03 C24 C27",
    "lib/encodinginputstream.cpp": "C13 C03 C27 C28",
    "lib/inputstreamreader.cpp": "C13 C02 C03 C28",
    "lib/kmpsearcher.cpp": "C06 C05 C27",
    "lib/textutils.cpp": "C14 C27",
    "include/strigi/textutils.h": "C14 C16 C22",
    "lib/dataeventinputstream.cpp": "C07 C03 C02 C32",
    "lib/stringterminatedsubstream.cpp": "C05 C02 C03 C32",
    "lib/subinputstream.cpp": "C04 C02 C03 C32",
    "lib/fileinputstream.cpp": "C01 C02 C03 C27",
    "lib/skippingfileinputstream.cpp": "C01 C02 C03 C27",
    "lib/mmapfileinputstream.cpp": "C01 C02 C03 C27",
    "lib/filestreamopener.cpp": "C25 C26 C27",
    "include/strigi/stringstream.h": "C01 C02 C03 C04",
    "include/strigi/bufferedstream.h": "C01 C02 C03 C08 C13",
    "include/strigi/streambuffer.h": "C01 C02 C03 C08 C13",
    "lib/processinputstream.cpp": "C30",
    "lib/archivereader.cpp": "C25 C26 C36 C27",
    "lib/archiveentrycache.cpp": "C25 C26 C36",
    "lib/listinginprogress.cpp": "C25 C26 C36 C27",
    "lib/substreamproviderprovider.cpp": "C31 C24 C27",
}
LAST = "C37 C33 C28 C32"
OPS = [
    (r"(?<![<>=!\-+*/&|])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->=])>(?![>=])", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\+ ?1\b", ["+ 0", "+ 2"]), (r"- ?1\b", ["- 0", "- 2"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
    (r"(?<![\w.])\d+\b", ["N+1", "N-1"]), (r"(?<![\w.])0x[0-9a-fA-F]+\b", ["N+1", "N-1", "0"]),
    (r"\bint64_t\b", ["int32_t"]), (r"\bEof\b", ["Ok", "Error"]), (r"\bError\b", ["Eof", "Ok"]),
    (r"!(?=[\w(])", [""]), (r"\bif \((?=[^;]*$)", ["if (!("]), (r"(?<=[(, ])&(?= )", ["|"]), (r"\?", ["? !!"]),
]


def sites(path, text):
    out, comment, err = [], False, False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "class", "friend", "public", "private", "protected", "static const char*")) or s in "{}" or s.startswith("}"):
            if not s.startswith("} else"):
                continue
        if "fprintf" in s or "m_error" in s or "assert" in s or "<<" in s and '"' in s or "std::cerr" in s:
            continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2 or code[:m.start()].count("'") % 2:
                    continue
                for r in reps:
                    if r.startswith("N"):
                        r = str(int(m.group(0), 0) + (1 if r == "N+1" else -1))
                    if r == "if (!(":
                        mm = re.match(r"(.*\bif )\((.*)\)( \{\s*| return.*| break;| continue;)?$", code.rstrip())
                        if not mm:
                            continue
                        new = mm.group(1) + "(!(" + mm.group(2) + "))" + (mm.group(3) or "")
                    else:
                        new = code[:m.start()] + r + code[m.end():]
                    if new != code:
                        out.append((i, l, new))
        if re.match(r"^[\w>.\-\[\]*() +]+(\(.*\)|[-+|&]?=[^=].*);$", s) and not re.match(r"^(int|const|char|bool|size_t|u?int\d+_t|string|return|InputStream|std::|StreamStatus)\b.*=", s):
            out.append((i, l, re.match(r"\s*", l).group(0) + ";"))
    return [(path,) + o for o in out]


def original_lines(path):
    r = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", path], stdout=subprocess.PIPE).stdout.decode(errors="replace")
    root = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE).stdout.decode().split()
    return [l.lstrip("^")[:38] in [x[:38] for x in root] for l in r.split("\n")]


def sh(cmd, timeout=600, **k):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lanes", type=int, default=4)
    ap.add_argument("--out", default="/tmp/mut.jsonl")
    ap.add_argument("--files", default="")
    ap.add_argument("--share", type=float, default=0.5, help="part of each check's cases")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    todo = []
    for f in FILES:
        if a.files and not any(x in f for x in a.files.split(",")):
            continue
        if not os.path.exists("/repo/" + f):
            continue
        t = open("/repo/" + f, errors="replace").read()
        todo.append((f, sites(f, t)))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    queue = []
    weights = [len(s) ** 0.8 for _, s in todo]
    while len(queue) < a.n and any(s for _, s in todo):
        f, s = rnd.choices(todo, weights)[0]
        if not s:
            continue
        m = s.pop(rnd.randrange(len(s)))
        if (m[0], m[1] + 1, m[3]) not in done:
            queue.append(m)
    lock = threading.Lock()

    def lane(k):
        d = f"/tmp/mut/lane{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh(f"git -C /repo archive HEAD | tar x -C {d}")
        env = dict(os.environ, CC="gcc", CXX="g++")
        build = "cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error >/dev/null && ninja -C _build"
        rc, o = sh(build, cwd=d, env=env)
        assert rc == 0, o
        while True:
            with lock:
                if not queue:
                    break
                m = queue.pop(0)
            f, i, old, new = m
            p = os.path.join(d, f)
            t = open(p, errors="surrogateescape").read()
            ls = t.split("\n")
            assert ls[i] == old
            ls[i] = new
            open(p, "w", errors="surrogateescape").write("\n".join(ls))
            res = dict(file=f, line=i + 1, old=old.strip(), new=new)
            rc, o = sh("ninja -C _build", cwd=d, env=env, timeout=200)
            if rc:
                res["result"] = "no build"
            else:
                rc, o = sh("ctest --test-dir _build -j4 --timeout 20", cwd=d, timeout=120)
                if rc:
                    res["result"] = "tests fail"
                else:
                    res["result"] = "SURVIVED"
                    own = FILES[f].split()
                    for j, c in enumerate(own + [x for x in LAST.split() if x not in own]):
                        q = cases[c]
                        rc, o = sh(f"python3 run.py {c} --repo {d} --workers 2 --cases {int(q * a.share)}", cwd=V, timeout=900)
                        if rc == 1:
                            res["result"] = "caught " + c
                            res["first"] = j == 0
                            break
                        if rc:
                            res["result"] = f"{c} exit {rc}: {o[-300:]}"
                            break
            open(p, "w", errors="surrogateescape").write(t)
            with lock:
                open(a.out, "a").write(json.dumps(res) + "\n")

    cases = {}
    for h in os.listdir(os.path.join(V, "harness")):
        t = open(os.path.join(V, "harness", h), errors="replace").read()
        for m in re.finditer(r'\{ "(C\d\d)", \w+,.*?(\d{4,}), \d{5,}, \d+, \d+, \d+ \}', t, re.S):
            cases[m.group(1)] = int(m.group(2))
        for m in re.finditer(r'^ITERATION\(\w+, "(C\d\d)", \w+, (\d+)', t, re.M):
            cases[m.group(1)] = int(m.group(2))
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(a.lanes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
