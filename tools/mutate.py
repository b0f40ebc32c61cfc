#!/usr/bin/env python3
"""Small automatic changes to the code under test, to find what the checks do not see.

usage: mutate.py --out LOG [--jobs N] [--frac F] [--seed S] [--runs K] FILE[:FUNC,FUNC...]=C01,C02 ...

Every change is tried in a mount namespace with copies of /repo and /verif; the log says which check noticed.
"""
import ast, json, os, random, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="),
       ast.In: ("in", "not in"), ast.NotIn: ("not in", "in"), ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&")}


def mutants(src, funcs):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: b[slice(*span(n))].decode()
    out = []

    def sub(n, new, what, s=None):
        a, e = s or span(n)
        out.append((n.lineno, what, (b[:a] + new.encode() + b[e:]).decode()))

    def visit(n, name, docs):
        for c in ast.iter_child_nodes(n):
            nm = name
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                nm = (name + "." if name else "") + c.name
            ok = nm and (not funcs or any(nm == f or nm.endswith("." + f) or nm.startswith(f + ".") for f in funcs))
            if ok:
                one(c, nm)
            visit(c, nm, docs)

    def one(n, nm):
        w = lambda t: f"{nm}: {t}"
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                a, e = span(n.left)[1], span(n.comparators[0])[0]
                mid = b[a:e].decode()
                if o[0] in mid:
                    sub(n, mid.replace(o[0], o[1], 1), w(f"{seg(n)} : {o[0]} -> {o[1]}"), (a, e))
        elif isinstance(n, ast.BoolOp):
            o = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            a, e = span(n.values[0])[1], span(n.values[1])[0]
            mid = b[a:e].decode()
            sub(n, mid.replace(o[0], o[1], 1), w(f"{seg(n)[:60]} : {o[0]} -> {o[1]}"), (a, e))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            sub(n, "(" + seg(n.operand) + ")", w(f"{seg(n)[:60]} : not dropped"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            o = BIN[type(n.op)]
            a, e = span(n.left)[1], span(n.right)[0]
            mid = b[a:e].decode()
            if o[0] in mid:
                sub(n, mid.replace(o[0], o[1], 1), w(f"{seg(n)[:60]} : {o[0]} -> {o[1]}"), (a, e))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool):
            new = {True: "False", False: "True"}[n.value] if isinstance(n.value, bool) else str(1 - n.value if n.value in (0, 1) else n.value + 1)
            sub(n, new, w(f"{n.value} -> {new} in {lines[n.lineno - 1].strip()[:70]}"))
        elif isinstance(n, (ast.If, ast.While)):
            for new in ("True", "False"):
                if not (isinstance(n, ast.While) and new == "True"):
                    sub(n.test, new, w(f"if {seg(n.test)[:60]} -> {new}"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            sub(n, seg(n.func.value), w(f"{seg(n)[:60]} : copy dropped"))
        elif isinstance(n, ast.AugAssign):
            sub(n, seg(n.target) + " = " + seg(n.value), w(f"{seg(n)[:60]} : not augmented"))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) is False and isinstance(n.slice, ast.UnaryOp):
            pass
        elif isinstance(n, ast.ExceptHandler):
            a, e = span(n.body[0])[0], span(n.body[-1])[1]
            if not (len(n.body) == 1 and isinstance(n.body[0], ast.Pass)):
                sub(n, "pass", w(f"except body of {lines[n.lineno - 1].strip()} dropped"), (a, e))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert, ast.Break, ast.Continue)) or \
                (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            t = seg(n)
            if not t.startswith(("logger", "print", "self.logger")):
                sub(n, "pass", w(f"dropped: {t[:90]}"))
        if isinstance(n, ast.Return) and n.value is not None:
            sub(n, "return None", w(f"{seg(n)[:60]} -> None"))
    visit(tree, "", None)
    good, seen = [], set()
    for ln, what, s in out:
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        if s not in seen and s != src:
            seen.add(s)
            good.append((ln, what, s))
    return good


INNER = r'''
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 99
cd /verif
for p in $PROPS; do
 FPSIM_WORKERS=1 FPSIM_MIN=0 VERIF_SEED=1 timeout 600 python3 check.py $p quick > $W/out_$p.txt 2>&1; rc=$?
 echo "$p $rc"
 [ $rc = 1 ] && break
done
exit 0
'''


def slot(k, todo, log, lock, runs):
    W = f"/tmp/mut/{k}"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + "/verif")
    subprocess.run(["cp", "-a", R, W + "/repo"], check=True)
    subprocess.run(f"cd {V} && tar cf - --exclude=./replays --exclude=./seeded --exclude=./.git . | tar xf - -C {W}/verif", shell=True, check=True)
    os.makedirs(W + "/verif/replays", exist_ok=True)
    while True:
        with lock:
            if not todo:
                break
            f, ln, what, src, props = todo.pop()
        p = os.path.join(W, "repo", f)
        orig = open(p).read()
        open(p, "w").write(src)
        t0 = time.time()
        env = dict(os.environ, W=W, PROPS=" ".join(props))
        if runs:
            env["FPSIM_RUNS"] = str(runs)
        r = subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", INNER], capture_output=True, text=True, env=env)
        open(p, "w").write(orig)
        res = {}
        for l in r.stdout.splitlines():
            a, c = l.split()
            res[a] = int(c)
        by = [a for a, c in res.items() if c == 1]
        odd = [a for a, c in res.items() if c not in (0, 1)]
        msg = ""
        for a in by or odd:
            t = open(f"{W}/out_{a}.txt").read().strip().splitlines()
            msg = " | ".join(t[-2:])[-300:]
        rec = dict(file=f, line=ln, what=what, by=by, odd=odd, t=round(time.time() - t0), msg=msg)
        with lock:
            log.write(json.dumps(rec) + "\n")
            log.flush()
    shutil.rmtree(W, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = dict(jobs="4", frac="1", seed="1", runs="0", out="/tmp/mut.log")
    rest = []
    while a:
        x = a.pop(0)
        if x.startswith("--"):
            opt[x[2:]] = a.pop(0)
        else:
            rest.append(x)
    rng = random.Random(int(opt["seed"]))
    todo = []
    for r in rest:
        f, props = r.split("=")
        f, _, fn = f.partition(":")
        ms = mutants(open(os.path.join(R, f)).read(), [x for x in fn.split(",") if x])
        ms = [m for m in ms if rng.random() < float(opt["frac"])]
        print(f, len(ms), "changes")
        todo += [(f, ln, what, s, props.split(",")) for ln, what, s in ms]
    rng.shuffle(todo)
    if "list" in opt:
        return
    lock = threading.Lock()
    with open(opt["out"], "a") as log:
        ts = [threading.Thread(target=slot, args=(k, todo, log, lock, int(opt["runs"]))) for k in range(int(opt["jobs"]))]
        [t.start() for t in ts]
        [t.join() for t in ts]


main()
