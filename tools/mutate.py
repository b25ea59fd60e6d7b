"""Mutation testing of the checks (development tool; no check uses it).

  python3 tools/mutate.py list                     number of mutants per file
  python3 tools/mutate.py run OUT [FILE...] [-j N] [-n NSHARD]   run all mutants of the files, write one JSON line each to OUT
  python3 tools/mutate.py show OUT                 print the surviving mutants as diffs

Each mutant is applied to a copy of /repo, which is put in the place of /repo in a mount namespace of its own.
"""
import ast, difflib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "stream/gen.py": "C01 C02 C03 C04 C38 C37 C36 C35", "stream/shuffle.py": "C05 C06 C12 C13 C36 C37 C35",
    "kernel/add.py": "C08 C07 C16 C38 C36 C37 C35 C19", "kernel/mul.py": "C09 C10 C38 C36 C37 C35 C28", "kernel/div.py": "C11 C12 C38 C36 C37 C35 C13",
    "kernel/sqrt.py": "C13 C38 C36 C37 C35", "kernel/signabs.py": "C14 C12 C36 C38", "kernel/relu.py": "C15 C16 C36 C39", "kernel/sigmoid.py": "C16 C38 C36 C27",
    "kernel/tanh.py": "C16 C27", "kernel/jkff.py": "C17 C36 C13", "kernel/shiftreg.py": "C18 C38 C10 C11 C36",
    "metric/metric.py": "C32 C33 C34 C38 C35 C37", "kernel/utils.py": "C31 C30 C40 C29 C22 C21 C23 C38 C27", "kernel/rnn.py": "C28 C27 C49 C37 C38 C25",
    "kernel/linear.py": "C19 C50 C49 C21 C22 C23 C24 C25 C26 C38 C37 C35 C36", "kernel/conv.py": "C20 C50 C49 C21 C22 C23 C24 C25 C26 C38 C35 C37"}
NAMES = {"gt": ["ge", "lt"], "ge": ["gt"], "lt": ["le", "gt"], "le": ["lt"], "eq": ["ne"], "ne": ["eq"], "max": ["min"], "min": ["max"], "floor": ["ceil", "round"],
         "ceil": ["floor"], "round": ["floor", "trunc"], "trunc": ["round"], "add": ["sub"], "sub": ["add"], "add_": ["sub_"], "sub_": ["add_"], "mul": ["div"], "mul_": ["div_"],
         "div": ["mul"], "zeros": ["ones"], "ones": ["zeros"], "zeros_like": ["ones_like"], "ones_like": ["zeros_like"], "stype": ["btype", "rtype"], "btype": ["stype", "rtype"],
         "rtype": ["stype", "btype"], "acc_max": ["acc_min"], "acc_min": ["acc_max"], "int8": ["bool", "long"], "long": ["int8"], "rng_idx": ["rng_idx_inv"], "rng_idx_inv": ["rng_idx"],
         "logical_or": ["logical_and"], "logical_and": ["logical_or"], "clone": [], "float": ["half"], "sum": ["mean"], "cat": [], "lshift": ["rshift"], "rshift": ["lshift"],
         "widthi": ["widthw"], "widthw": ["widthi"], "rngi": ["rngw"], "rngw": ["rngi"], "quantilei": ["quantilew"], "quantilew": ["quantilei"], "hidden_size": ["input_size"],
         "input_size": ["hidden_size"], "in_features": ["out_features"], "out_features": ["in_features"], "floor_divide": [], "abs": [], "unipolar": [], "ceil": ["floor"]}
CMP = {ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&", "^"], ast.BitXor: ["|"],
       ast.LShift: [">>"], ast.RShift: ["<<"]}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<",
       ast.RShift: ">>"}
CSYM = {ast.Gt: ">", ast.GtE: ">=", ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in"}


def mutants(src):
    """(offset, end, replacement) edits of the source."""
    tree = ast.parse(src)
    starts = [0]
    for l in src.split("\n"):
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    off = lambda line, col: starts[line - 1] + col
    span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    seg = lambda n: raw[span(n)[0]:span(n)[1]].decode()
    out = []

    def between(a, b, sym, reps):
        lo, hi = span(a)[1], span(b)[0]
        mid = raw[lo:hi].decode()
        i = mid.find(sym)
        if i >= 0:
            for r in reps:
                out.append((lo + i, lo + i + len(sym), " %s " % r if r.isalpha() or " " in r else r))

    def visit(n, ctx):
        if isinstance(n, (ast.FunctionDef,)):
            for s in n.body:
                visit(s, ctx)
            return
        if isinstance(n, ast.Assert):
            out.append(span(n) + ("pass",))
            visit(n.test, ctx)
            return
        if isinstance(n, ast.Raise):
            out.append(span(n) + ("pass",))
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not (seg(n).startswith("super(")):
            out.append(span(n) + ("pass",))
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
            t = seg(tgt)
            if "." in t and (".data" in t or isinstance(n, ast.AugAssign)):
                out.append(span(n) + ("pass",))
            if t.startswith(("self.hwcfg[", "self.swcfg[")):
                pass
        if isinstance(n, ast.If):
            out.append(span(n.test) + ("not (%s)" % seg(n.test),))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], CSYM[type(n.ops[0])], CMP[type(n.ops[0])])
        if isinstance(n, ast.BoolOp):
            s = "and" if isinstance(n.op, ast.And) else "or"
            between(n.values[0], n.values[1], s, ["or" if s == "and" else "and"])
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(getattr(n.left, "value", 0), str):
            if not (isinstance(n.op, ast.Add) and ("Error" in seg(n) or "str(" in seg(n) or '"' in seg(n))):
                between(n.left, n.right, SYM[type(n.op)], BIN[type(n.op)])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append(span(n) + (" " + seg(n.operand),))
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                out.append(span(n) + (str(not n.value),))
            elif isinstance(n.value, (int, float)):
                out.append(span(n) + (repr(n.value + 1),))
                out.append(span(n) + ("(%r)" % (n.value - 1),))
            elif n.value is None:
                pass
        if isinstance(n, ast.Attribute):
            for r in NAMES.get(n.attr, []):
                e = span(n)[1]
                out.append((e - len(n.attr), e, r))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for r in NAMES.get(n.id, []):
                out.append(span(n) + (r,))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            for r in NAMES.get(n.slice.value, []):
                out.append(span(n.slice) + ('"%s"' % r,))
            visit(n.value, ctx)
            return
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("clamp", "clamp_", "abs", "type", "clone", "detach", "floor", "ceil", "round", "t", "contiguous", "sub", "add", "mul", "div",
                                                             "lower", "trunc", "sign", "mul_", "sub_", "add_", "transpose", "view", "sum") and not seg(f.value).startswith("torch"):
                out.append((span(f.value)[1], span(n)[1], ""))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[0], n.args[1]
                if seg(a) != seg(b) and "assert" not in seg(n):
                    out.append((span(a)[0], span(b)[1], seg(b) + raw[span(a)[1]:span(b)[0]].decode() + seg(a)))
            for k in n.keywords:
                s = off(k.lineno, k.col_offset)
                e = span(k.value)[1]
                pre = raw[:s].decode().rstrip()
                if pre.endswith(","):
                    out.append((len(pre.encode()) - 1, e, ""))
        for c in ast.iter_child_nodes(n):
            visit(c, ctx)

    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                visit(s, None)
        elif isinstance(n, ast.FunctionDef):
            visit(n, None)
    seen, res = set(), []
    for lo, hi, rep in out:
        new = (raw[:lo] + rep.encode() + raw[hi:]).decode()
        if new in seen or new == src:
            continue
        seen.add(new)
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((lo, hi, rep, new))
    return res


def diff(f, src, new):
    return "".join(difflib.unified_diff(src.splitlines(1), new.splitlines(1), "a/" + f, "b/" + f, n=1))


RUN = r'''
import sys, os, json, time, warnings
warnings.filterwarnings("ignore")
from harness import core
res = {"killed": None}
try:
    core.setup_torch()
    for pid in sys.argv[2].split():
        prop = core.load(pid)
        known = core.known_findings(pid)
        out = "/tmp/mut_res_%d.json" % os.getpid()
        core.SHRINK_S = 0.0
        core.CASE_S = 20.0
        core.worker(pid, 0, int(sys.argv[3]), "1", "quick", out, 90.0)
        r = json.load(open(out)); os.unlink(out)
        if r["fail"] or r["error"]:
            res = {"killed": pid, "check": (r["fail"] or {}).get("check"), "msg": (r["fail"] or {}).get("message", r["error"] or "")[:300]}
            break
except BaseException as e:
    res = {"killed": "import", "msg": repr(e)[:300]}
json.dump(res, open(sys.argv[1], "w"))
os._exit(0)
'''


def one(args):
    i, f, src, m, checks, nshard = args
    d = tempfile.mkdtemp(prefix="mt_")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.makedirs(d + "/verif")
        subprocess.run("cp -a %s/harness %s/known_findings.txt %s/verif/" % (ROOT, ROOT, d), shell=True, check=True)
        with open(d + "/repo/" + f, newline="") as h:
            crlf = "\r\n" in h.read()
        with open(d + "/repo/" + f, "w", newline="") as h:
            h.write(m[3].replace("\n", "\r\n") if crlf else m[3])
        open(d + "/run.py", "w").write(RUN)
        env = dict(os.environ, PYTHONPATH="/verif:/opt/pypath", PYTHONNOUSERSITE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
        try:
            subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec /opt/venv/bin/python -W ignore %s/run.py %s/res.json '%s' %d"
                            % (d, d, d, d, checks, nshard)], env=env, timeout=1500, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = json.load(open(d + "/res.json")) if os.path.exists(d + "/res.json") else {"killed": "crash"}
        except subprocess.TimeoutExpired:
            r = {"killed": "timeout"}
        r.update(file=f, i=i, diff=diff(f, src, m[3]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(a):
    if a[0] == "show":
        for l in open(a[1]):
            r = json.loads(l)
            if r["killed"] is None or len(a) > 2:
                print("#%d %s %s" % (r["i"], r["file"], r["killed"])); print(r["diff"])
        return
    files = [x for x in a[2:] if x in CHECKS] or sorted(CHECKS)
    j = int(a[a.index("-j") + 1]) if "-j" in a else 8
    ns = int(a[a.index("-n") + 1]) if "-n" in a else 8
    done = set()
    if a[0] == "run" and os.path.exists(a[1]):
        done = {(r["file"], r["i"]) for r in map(json.loads, open(a[1]))}
    jobs = []
    for f in files:
        src = open("/repo/" + f).read()
        ms = mutants(src)
        print(f, len(ms))
        jobs += [(i, f, src, m, CHECKS[f], ns) for i, m in enumerate(ms) if (f, i) not in done]
    if a[0] == "list":
        return
    with ThreadPoolExecutor(j) as ex, open(a[1], "a") as out:
        for r in ex.map(one, jobs):
            out.write(json.dumps(r) + "\n"); out.flush()


main(sys.argv[1:])
