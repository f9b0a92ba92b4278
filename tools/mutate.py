"""Development helper (no check uses it): mutates /repo's sources one place at a time and runs checks against each mutant until one reports it.
usage: mutate.py N SEED OUT FILE:CHECK,CHECK,... ...   (FILE relative to pdfmajor/)"""
import ast, json, os, random, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.BitXor: '|'}


def mutants(src):
    """[(line, kind, new source)]"""
    tree = ast.parse(src)
    lines = src.encode().splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def put(n, kind, new):
        a, z = pos(n)
        out.append((n.lineno, kind, txt(n).split('\n')[0][:70] + ' -> ' + new.split('\n')[0][:70], (b[:a] + new.encode() + b[z:]).decode()))

    def visit(n, skip):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Global)):
            skip = True
        if isinstance(n, ast.Call) and txt(n).startswith(('log.', 'print(', 'logging.', 'super(')):
            skip = True
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if not skip:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                put(n, 'cmp', '(%s) %s (%s)' % (txt(n.left), SWAP[type(n.ops[0])], txt(n.comparators[0])))
            if isinstance(n, ast.BoolOp):
                put(n, 'bool', (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % txt(v) for v in n.values))
                for i in range(len(n.values)):
                    put(n, 'drop', '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % txt(v) for j, v in enumerate(n.values) if j != i))
            if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                put(n, 'bin', '((%s) %s (%s))' % (txt(n.left), BIN[type(n.op)], txt(n.right)))
            if isinstance(n, ast.Constant) and not isinstance(n.value, str):
                v = n.value
                if isinstance(v, bool):
                    put(n, 'const', str(not v))
                elif isinstance(v, (int, float)):
                    put(n, 'const', repr(v + 1))
                    if v:
                        put(n, 'const', repr(v - 1))
                elif isinstance(v, bytes):
                    put(n, 'const', repr(v + b'x'))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
                put(n, 'const', repr(n.value + 'x'))
            if isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
                put(n.test, 'not', '(not (%s))' % txt(n.test))
                if not isinstance(n, ast.While):
                    put(n.test, 'true', 'True')
                    put(n.test, 'false', 'False')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                put(n, 'unary', '(%s)' % txt(n.operand))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                put(n, 'del', 'pass')
            if isinstance(n, ast.Return) and n.value is not None and txt(n.value) != 'None':
                put(n, 'ret', 'return None')
            if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                put(n, 'args', '%s(%s, %s)' % (txt(n.func), txt(n.args[1]), txt(n.args[0])))
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                for p in ('lower', 'upper'):
                    e = getattr(n.slice, p)
                    if e is not None:
                        put(e, 'slice', '((%s) + 1)' % txt(e))
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'decorator_list'):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    visit(c, skip)
    visit(tree, False)
    good = []
    for m in out:
        if m[3] == src:
            continue
        try:
            ast.parse(m[3])
            good.append(m)
        except SyntaxError:
            pass
    return good


def main():
    n, seed, outp = int(sys.argv[1]), sys.argv[2], sys.argv[3]
    rnd = random.Random(seed)
    todo = []
    for a in sys.argv[4:]:
        f, cs = a.split(':')
        src = open('/repo/pdfmajor/' + f, newline='').read()
        # lines of the original repository only
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'pdfmajor/' + f], capture_output=True, text=True).stdout.split('\n')
        old = [(f, cs.split(',')) + m for m in mutants(src) if bl[m[0] - 1].startswith('^')]
        print(f, len(old))
        todo += old
    print('mutants in all:', len(todo))
    rnd.shuffle(todo)
    todo = todo[:n]
    if not n:
        return
    w = '/tmp/mut.%d' % os.getpid()
    shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    env = dict(os.environ, VERIF_REPO=w, VERIF_MAXV='1', PYTHONDONTWRITEBYTECODE='1')
    res = {}
    try:
        for f, cs, line, kind, what, new in todo:
            p = os.path.join(w, 'pdfmajor', f)
            with open(p, newline='') as h:
                old = h.read()
            with open(p, 'w', newline='') as h:
                h.write(new)
            by, t = None, time.time()
            for c in cs:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'mc', 'check', c], cwd=V, env=env, capture_output=True, text=True)
                if r.returncode:
                    by = '%s(%d)' % (c, r.returncode)
                    break
            with open(outp, 'a') as h:
                h.write('%-9s %s:%d %s  %s  (%.0f s)\n' % (by or 'SURVIVED', f, line, kind, what, time.time() - t))
            res[bool(by)] = res.get(bool(by), 0) + 1
            with open(p, 'w', newline='') as h:
                h.write(old)
    finally:
        shutil.rmtree(w)
    print(res)


main()
