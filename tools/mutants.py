#!/usr/bin/env python3
"""mutants.py SEED COUNT [-j N] [-o LOG] [FILE ...]: small random changes of
the sources (operators, constants, conditions, slices, deleted statements), each in a
scratch copy of /repo; those that pass the repository's tests are run against
the checks of their file, fastest first, until one reports a violation.
Prints the survivors. With -p ID only files whose list names that check, which
runs first: prints the ones it misses, and which other check sees them. With
RARE set the change shows only while two drawn signals have drawn values."""
import sys, os, json, ast, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
RARE = bool(os.environ.get("RARE"))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SECONDS = dict(C01=17, C02=19, C03=5, C04=10, C05=15, C06=10, C07=7, C08=7, C09=5, C10=8, C11=6, C12=3, C13=3, C14=3, C15=10,
               C16=13, C17=3, C18=3, C19=18, C20=7, C21=10, C22=5, C23=5, C24=30, C25=9, C26=13, C27=25, C28=26)
CORE = "C01 C03 C04 C02 C07 C08 C16"
CHECKS = {
    "integration_1": CORE, "integration_2": CORE + " C10", "integration_3": CORE + " C10 C11",
    "difference": "C08 C01", "normalize": "C08 C01", "encode": "C08 C16 C01", "merge": "C09 C01", "signals": "C07 C01 C04",
    "predictor_p1_c4_pix1_2": "C07 C01", "predictor_p1_c4_px4": "C07 C01", "lj92_pipeline_fifo": "C10 C02 C01", "converter": "C10 C01",
    "converter_fifo": "C10 C01 C02", "vbits_to_cbits": "C11 C01 C02", "constraints": "C01 C15", "fix_0xff": "C12 C03", "fix_0xff2": "C12 C03",
    "markers": "C13 C03 C05", "force_end": "C05 C20 C04", "auto_reset": "C20 C04 C05", "delayer": "C20", "reverser": "C20 C28",
    "debug_module": "C20", "core_axi_lite": "C15 C16 C20 C26", "axi_lite": "C18 C15 C17", "register_file": "C15 C18 C16",
    "dma_axi_lite": "C18", "axi3_lite_pkg": "C17", "axi3_pkg": "C17 C19", "axihp_reader": "C19", "axihp_writer": "C19", "axihp_fifo": "C19",
    "address_generator": "C19", "b16_b40": "C14 C06", "b16_b64": "C14 C06", "b64_b32": "C14 C06", "b64_b32_2": "C14 C06",
    "beta_integration": "C03 C04 C05 C20 C15 C02 C01 C21", "micro_integration": "C03 C04 C05 C20 C15 C02 C01 C21",
    "beta_integration_axistream": "C06 C04 C21 C20", "micro_integration_axistream": "C06 C04 C21 C20",
    "beta_integration_fifo_axistream": "C06 C21", "beta_integration_fifo_lvds": "C06 C21", "integration_3_axi_stream": "C06",
    "clk_domains": "C28", "config": "C01 C16 C21 C15",
}
PIPE = ("integration_1 integration_2 integration_3 difference normalize encode merge signals predictor_p1_c4_pix1_2 predictor_p1_c4_px4 "
        "lj92_pipeline_fifo converter converter_fifo vbits_to_cbits ")
PROD = PIPE + "fix_0xff fix_0xff2 markers force_end auto_reset beta_integration micro_integration core_axi_lite "
SCOPE = {"C01": PIPE, "C02": PIPE, "C03": PROD, "C04": PROD, "C05": PROD, "C25": PROD, "C21": PROD, "C16": PIPE + "core_axi_lite",
         "C06": "beta_integration_axistream micro_integration_axistream beta_integration_fifo_axistream beta_integration_fifo_lvds "
                "integration_3_axi_stream b16_b64 b64_b32 b64_b32_2 b16_b40"}
REPO_FILES = ["migen_src/%s.py" % k for k in CHECKS] + ["liblj92/lj92.c"] + ["software/src/%s.cpp" % n for n in
              ("core_axi_lite", "xilinx_dma", "xilinx_test", "mmap_handler", "tools")] + ["generate_verilog.py"]

def checks_of(f):
    n = os.path.basename(f).rsplit(".", 1)[0]
    if f.startswith("migen_src"):
        cs = CHECKS[n].split() + ["C28"]
    elif f.startswith("liblj92"):
        cs = ["C22", "C23", "C24"]
    elif f == "generate_verilog.py":
        cs = ["C28"]
    else:
        cs = ["C27"] if n in ("xilinx_test",) else ["C26", "C27"]
    return sorted(dict.fromkeys(cs), key=lambda c: SECONDS[c])

def offs(src):
    o = [0]
    for l in src.split("\n"):
        o.append(o[-1] + len(l.encode()) + 1)
    return o

def py_sites(src):
    """(start, end, replacement, what) over the bytes of src"""
    o = offs(src)
    b = src.encode()
    def span(n): return o[n.lineno - 1] + n.col_offset, o[n.end_lineno - 1] + n.end_col_offset
    def text(n): s, e = span(n); return b[s:e].decode()
    out = []
    cmp = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"]}
    bop = {ast.Add: ["-"], ast.Sub: ["+"], ast.BitAnd: ["|"], ast.BitOr: ["&", "^"], ast.BitXor: ["|"], ast.Mult: ["+"], ast.LShift: [">>"], ast.RShift: ["<<"]}
    t = ast.parse(src)
    cls = [c for c in t.body if isinstance(c, ast.ClassDef)]
    fns = [n for c in cls for n in c.body if isinstance(n, ast.FunctionDef)]
    isg = lambda v: isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "Signal"
    for f in fns:
        c = next(c for c in cls if f in c.body)
        attrs = sorted({text(n.targets[0]) for n in ast.walk(c) if isinstance(n, ast.Assign) and isg(n.value) and text(n.targets[0]).startswith("self.")})
        local = [(n.lineno, text(n.targets[0])) for n in f.body if isinstance(n, ast.Assign) and isg(n.value) and isinstance(n.targets[0], ast.Name)]
        if RARE and f.name == "elaborate":
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("eq", "If", "Elif"):
                    pool = attrs + [x for l, x in local if l < n.lineno]
                    if len(pool) > 1: out.append(span(n.args[0]) + ("?" + n.func.attr + "?" + text(n.func.value) + "?" + text(n.args[0]), "rare " + n.func.attr, pool))
        if RARE: continue
        names = sorted({text(n) for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load)})
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for r in cmp.get(type(n.ops[0]), []):
                    out.append(span(n) + ("%s %s %s" % (text(n.left), r, text(n.comparators[0])), "compare"))
            elif isinstance(n, ast.BinOp):
                for r in bop.get(type(n.op), []):
                    out.append(span(n) + ("(%s) %s (%s)" % (text(n.left), r, text(n.right)), "operator"))
                if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                    out.append(span(n) + (text(n.left), "operand"))
                    out.append(span(n) + (text(n.right), "operand"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
                out.append(span(n) + (text(n.operand), "inversion"))
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                out.append(span(n) + (str(n.value + 1), "constant"))
                if n.value > 0: out.append(span(n) + (str(n.value - 1), "constant"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a == "eq":
                    out.append(span(n) + ("[]", "statement"))
                    out.append(span(n.args[0]) + ("~(%s)" % text(n.args[0]), "value"))
                    if not isinstance(n.args[0], ast.Constant): out.append(span(n.args[0]) + ("0", "value"))
                elif a in ("If", "Elif"):
                    out.append(span(n.args[0]) + ("~(%s).bool()" % text(n.args[0]) if 0 else "((%s) == 0)" % text(n.args[0]), "condition"))
                    out.append(span(n.args[0]) + ("1", "condition"))
                    if a == "Elif":
                        s, e = span(n.func); out.append((s, e, text(n.func.value) + ".If", "elif"))
            elif isinstance(n, ast.Attribute) and n.attr in ("sync", "comb", "full") and text(n).startswith("m.d"):
                if n.attr == "comb": continue
                for r in ("sync", "full"):
                    if r != n.attr: out.append(span(n) + ("m.d." + r, "domain"))
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and len(names) > 1:
                out.append(span(n) + ("@" + text(n), "name", names))
            elif isinstance(n, ast.With) and any(isinstance(x, ast.Assign) or isinstance(x, ast.AugAssign) for x in n.body) and len(n.body) > 1:
                pass
    # what ports a module lists is no behaviour, nor is the width of one-bit signals
    ls = src.split("\n")
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tgt, ast.Attribute) and tgt.attr.endswith("ios"): skip.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Assert): skip.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Signal" and n.args and text(n.args[0]) == "1": skip.add(n.lineno)
    return [s for s in out if b[:s[0]].count(b"\n") + 1 not in skip]

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|^\s*#[^\n]*|0[xX][0-9a-fA-F]+|\d+\.?\w*|[A-Za-z_]\w*|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|->|[-+*/%&|^~!<>=]|[(){};,\[\].:?]|\s+|.', re.S | re.M)
CSW = {"<": ["<=", ">"], "<=": ["<", ">"], ">": [">=", "<"], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"],
       "+": ["-"], "-": ["+"], "++": ["--"], "--": ["++"], "+=": ["-="], "-=": ["+="], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "^": ["|"], "!": [""], "%": ["/"]}
def c_sites(src):
    out, pos = [], 0
    stmt = 0
    for m in TOK.finditer(src):
        t = m.group()
        s = len(src[:m.start()].encode()) if 0 else m.start()
        if t in CSW:
            for r in CSW[t]: out.append((s, s + len(t), r, "operator"))
        elif re.fullmatch(r"\d+|0[xX][0-9a-fA-F]+", t):
            v = int(t, 0)
            out.append((s, s + len(t), str(v + 1), "constant"))
            if v: out.append((s, s + len(t), str(v - 1), "constant"))
        elif t == ";":
            x = src[stmt:s]
            k = re.search(r"[{};)]\s*$", x)
            y = x.strip()
            if re.match(r"(\*?[\w\->\[\]\.\(\)\*]+\s*([-+|&^*/]|<<|>>)?=|[\w\->]+\(|\w+(\+\+|--)|break|continue|return)", y) and not re.match(r"(for|if|while|else|return\s+\w+$)", y) and "\n#" not in x:
                a = s - len(x.lstrip())
                out.append((a, s, "", "statement"))
            stmt = s + 1
        elif t in "{}":
            stmt = s + 1
        elif t.startswith(("//", "/*")) or t.lstrip().startswith("#"):
            stmt = s + len(t)
    for m in re.finditer(r"\b(if|while)\s*\(", src):
        d, e = 1, m.end()
        while d:
            d += {"(": 1, ")": -1}.get(src[e], 0); e += 1
        out.append((m.end(), e - 1, "!(%s)" % src[m.end():e - 1], "condition"))
        if m.group(1) == "if": out.append((m.end(), e - 1, "0", "condition"))
    # what is not compiled
    gone, stack, o = set(), [], 0
    for i, l in enumerate(src.split("\n")):
        k = l.strip()
        if k.startswith("#if"): stack.append(bool(re.match(r"#ifdef (SLOW_HUFF|DEBUG)\b|#if 0", k)))
        elif k.startswith("#else") and stack: stack[-1] = bool(re.match(r"#else", k)) and not stack[-1] and False
        elif k.startswith("#endif") and stack: stack.pop()
        if any(stack): gone.add(i)
    return [s for s in out if src.count("\n", 0, s[0]) not in gone]

def mutate(path, g):
    src = open(path).read()
    if path.endswith(".py") and "migen_src" in path:
        ss = py_sites(src)
        b = src.encode()
    elif path.endswith(".py"):
        return None
    else:
        ss = c_sites(src)
        b = src.encode("latin-1") if 0 else src.encode()
    byk = {}
    for s in ss: byk.setdefault(s[3] if len(s) == 4 else s[3], []).append(s)
    if not byk:
        return None
    k = g.choice(sorted(byk))
    s = g.choice(byk[k])
    new = s[2]
    if new.startswith("?"):
        _, at, obj, val = new.split("?", 3)
        x = " & ".join("(%s%s)" % (n, g.choice((".all()", ".bool()", "[-1]", "[0]", "[0]==0", "==0"))) for n in g.sample(s[4], 2))
        new = "Mux(%s, %s, %s)" % (x, g.choice(("0", "~(%s)" % val, obj if "m.d.sync" in src.split("\n")[b[:s[0]].count(b"\n")] else "0")), val) if at == "eq" else "(%s) & ~(%s)" % (val, x)
    if new.startswith("@"):
        new = g.choice([x for x in s[4] if x != new[1:]])
    out = (b[:s[0]] + new.encode() + b[s[1]:]).decode()
    ln = b[:s[0]].count(b"\n") + 1
    return out, ln, k, b[s[0]:s[1]].decode(), new, src.split("\n")[ln - 1].strip()

def run(cmd, timeout, **k):
    """like subprocess.run, but ends what cmd started, too"""
    import signal
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass

def tests(w):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    t = tempfile.mkdtemp(prefix="mt")
    try:
        os.mkdir(t + "/repo")
        for d in ("migen_src", "test_files", "simulations"): shutil.copytree(w + "/" + d, t + "/repo/" + d)
        return run(["/usr/bin/python3", "/opt/vp/run_scripts.py", t + "/repo", "/opt/pypyvenv/bin/python"], 100, env=e, stderr=subprocess.DEVNULL)[1]
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        shutil.rmtree(t)

def main():
    a = sys.argv[1:]
    jobs, log = 4, "/tmp/mut.jsonl"
    if "-j" in a: i = a.index("-j"); jobs = int(a[i + 1]); del a[i:i + 2]
    if "-o" in a: i = a.index("-o"); log = a[i + 1]; del a[i:i + 2]
    own = None
    if "-p" in a: i = a.index("-p"); own = a[i + 1]; del a[i:i + 2]
    seed, count = a[0], int(a[1])
    files = a[2:] or [f for f in REPO_FILES if own is None or own in checks_of(f)]
    if own and own in SCOPE and not a[2:]: files = ["migen_src/%s.py" % k for k in SCOPE[own].split()]
    g = random.Random("mut/%s/%s" % (own, seed) if own else "mut/%s" % seed)
    base = None
    import threading
    lock = threading.Lock()
    seen = set()
    todo = []
    for f in files:
        for _ in range(count * 3):
            if sum(1 for x in todo if x[0] == f) >= count: break
            m = mutate(os.path.join("/repo", f), g)
            if m is None: break
            if m[0] in seen: continue
            seen.add(m[0]); todo.append((f, m))
    g.shuffle(todo)
    if own: todo = todo[:int(os.environ.get("MAXN", "40"))]
    dirs = []
    def one(x):
        f, m = x
        w = tempfile.mkdtemp(prefix="mu")
        try:
            shutil.copytree("/repo", w + "/repo", symlinks=True)
            with open(w + "/repo/" + f, "w") as h: h.write(m[0])
            rec = dict(file=f, line=m[1], kind=m[2], old=m[3], new=m[4], text=m[5])
            if f.startswith("migen_src"):
                if tests(w + "/repo") != base:
                    rec["result"] = "tests"
                    return rec
            t0 = time.time()
            rec["result"] = "SURVIVED"
            cs = checks_of(f)
            for c in ([own] + [c for c in cs if c != own] if own else cs):
                e = dict(os.environ, VP_REPO=w + "/repo", VP_EVIDENCE=w + "/ev", VERIF_SEED="1", VP_WORKERS=str(max(1, 8 // jobs)), TMPDIR=w)
                try:
                    rc, o = run(["./run.sh", c, "quick"], 900, cwd=ROOT, env=e, stderr=subprocess.STDOUT)
                except subprocess.TimeoutExpired:
                    rec["result"] = c + " timeout"; break
                if rc:
                    v = [l for l in o.splitlines() if l.startswith("  [")]
                    rec["result"] = "%s rc=%d" % (c, rc)
                    rec["why"] = v[0][:160] if v else o[-300:]
                    break
            rec["seconds"] = round(time.time() - t0)
            return rec
        finally:
            shutil.rmtree(w, ignore_errors=True)
    global_base = tests("/repo")
    base = global_base
    n = {}
    with ThreadPoolExecutor(jobs) as ex:
        for rec in ex.map(one, todo):
            with open(log, "a") as h: h.write(json.dumps(rec) + "\n")
            k = rec["result"].split()[0]; n[k] = n.get(k, 0) + 1
            if own and k not in (own, "tests") or rec["result"] == "SURVIVED" or ("rc=" in rec["result"] and "rc=1" not in rec["result"]) or "timeout" in rec["result"]:
                print(rec["result"], rec["file"], rec["line"], rec["kind"], "|", rec["text"], "| %s -> %s" % (rec["old"], rec["new"])); sys.stdout.flush()
    print(n)

if __name__ == "__main__":
    main()
