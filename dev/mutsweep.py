"""mutsweep.py <file under philtorch> <function,function,..> <contract module[:filter],..> [seconds] [max]: mutants of
the functions against the obligations; prints the mutants no obligation fails on."""
import ast, sys, os, random, shutil, subprocess, json, copy, multiprocessing as mp, time

FILE, FUNCS, MODS = sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(",")
SECS = float(sys.argv[4]) if len(sys.argv) > 4 else 60
MAX = int(sys.argv[5]) if len(sys.argv) > 5 else 80
SRC = open("/repo/philtorch/" + FILE).read()
DROP = {"flip", "conj", "conj_physical", "flatten", "squeeze", "unsqueeze", "expand", "transpose", "mT", "contiguous", "T", "neg"}


def sites(tree):
    """(description, function applied to a copy of the tree's node list index) for every mutation."""
    out = []
    for k, n in enumerate(ast.walk(tree)):
        if isinstance(n, ast.BinOp):
            for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.FloorDiv, ast.Mult), (ast.Mod, ast.FloorDiv)):
                if isinstance(n.op, a):
                    out.append((k, "op", b))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((k, "unneg", None))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((k, "const", not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out.append((k, "const", n.value + 1))
            out.append((k, "const", n.value - 1))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for a, bs in ((ast.Eq, (ast.NotEq,)), (ast.NotEq, (ast.Eq,)), (ast.Lt, (ast.LtE,)), (ast.LtE, (ast.Lt,)), (ast.Gt, (ast.GtE,)), (ast.GtE, (ast.Gt,)), (ast.Is, (ast.IsNot,)), (ast.IsNot, (ast.Is,))):
                if isinstance(n.ops[0], a):
                    for b in bs:
                        out.append((k, "cmp", b))
        if isinstance(n, ast.BoolOp):
            out.append((k, "bool", None))
        if isinstance(n, ast.IfExp):
            out.append((k, "ifexp", None))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DROP:
            out.append((k, "dropcall", None))
        if isinstance(n, ast.Attribute) and n.attr in ("mT", "T") and isinstance(n.ctx, ast.Load):
            out.append((k, "dropattr", None))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((k, "swapargs", None))
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            out.append((k, "swapelts", None))
        if isinstance(n, ast.If):
            out.append((k, "ifnot", None))
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            out.append((k, "delstmt", None))
    return out


def mutate(fn, site):
    t = copy.deepcopy(fn)
    k, kind, arg = site
    n = list(ast.walk(t))[k]
    line = getattr(n, "lineno", 0)
    before = ast.unparse(n)[:70]
    par = {}
    for p in ast.walk(t):
        for f, v in ast.iter_fields(p):
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        par[id(x)] = (p, f, j)
            elif isinstance(v, ast.AST):
                par[id(v)] = (p, f, None)

    def replace(new):
        p, f, j = par[id(n)]
        if j is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[j] = new

    if kind == "op":
        n.op = arg()
    elif kind == "unneg":
        replace(n.operand)
    elif kind == "const":
        n.value = arg
    elif kind == "cmp":
        n.ops = [arg()]
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "ifexp":
        n.body, n.orelse = n.orelse, n.body
    elif kind == "dropcall":
        replace(n.func.value)
    elif kind == "dropattr":
        replace(n.value)
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "swapelts":
        n.elts[0], n.elts[1] = n.elts[1], n.elts[0]
    elif kind == "ifnot":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "delstmt":
        replace(ast.Pass())
    ast.fix_missing_locations(t)
    after = "pass" if kind == "delstmt" else ""
    return t, "%s:%d %s %s [%s]" % (FILE, line, kind, getattr(arg, "__name__", arg), before)


def build():
    tree = ast.parse(SRC)
    out = []
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name in FUNCS:
            body = [s for s in f.body]
            for s in sites(f):
                try:
                    t, d = mutate(f, s)
                except Exception:
                    continue
                lines = SRC.split("\n")
                ind = " " * f.col_offset
                start = min([f.lineno] + [x.lineno for x in f.decorator_list]) - 1
                new = [ind + l for l in ast.unparse(t).split("\n")]
                src = "\n".join(lines[:start] + new + lines[f.end_lineno:])
                out.append((d, src))
    return out


def try_one(job):
    j, (d, src) = job
    dst = "/tmp/mu/s%d_%d" % (os.getpid(), j)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree("/repo/philtorch", dst + "/philtorch", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    open(dst + "/philtorch/" + FILE, "w").write(src)
    code = """
import sys,random,time
sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
import run,importlib
obs=[]
for m in %r:
    m,_,f=m.partition(':')
    obs+=[o for o in importlib.import_module('contracts.'+m).OBLIGATIONS if f in o['name'] and not o.get('thorough')]
random.Random(3).shuffle(obs)
t0=time.time(); st='survived'; und=0
for k,o in enumerate(obs):
    if time.time()-t0>%r: st='survived(time %%d/%%d)'%%(k,len(obs)); break
    r=run.one(dict(o, refute_seconds=10))
    if r['status']=='failed': st='caught'; break
    if r['status']!='proved': und+=1
print('RESULT',st,'undecided',und)
""" % (MODS, SECS)
    try:
        p = subprocess.run(["python3-vt", "-c", code], env=dict(os.environ, VERIF_REPO=dst), capture_output=True, text=True, timeout=SECS + 200)
        r = [l for l in p.stdout.split("\n") if l.startswith("RESULT")]
        r = r[0][7:] if r else "error " + p.stderr[-300:]
    except subprocess.TimeoutExpired:
        r = "timeout"
    shutil.rmtree(dst, ignore_errors=True)
    return d, r


if __name__ == "__main__":
    os.makedirs("/tmp/mu", exist_ok=True)
    ms = build()
    random.Random(1).shuffle(ms)
    ms = ms[:MAX]
    c = {}
    with mp.Pool(7) as p:
        for d, r in p.imap_unordered(try_one, list(enumerate(ms))):
            c[r.split()[0]] = c.get(r.split()[0], 0) + 1
            if not r.startswith("caught"):
                print(r, "|", d, flush=True)
    print(FILE, FUNCS, c)
