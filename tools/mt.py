"""Development aid (not a check): apply generated bugs (mutants) and behaviour-preserving edits to the functions a property's
contracts cover, in a scratch copy, and tabulate the verdicts.   python3 tools/mt.py Cnn mut|ref [filter] [-v]"""
import ast
import copy
import importlib
import os
import random
import shutil
import sys
import tempfile
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def run_check(prop, repo):
    """-> dict construct->(status,msg)"""
    from sa import program, ctx as C
    program.REPO = repo
    program.ROOT = os.path.join(repo, 'py_gnome')
    mod = importlib.import_module('props.' + prop.lower())
    c = C.Ctx(prop, 'quick')
    try:
        c.P
    except Exception as e:
        return {'parse': ('err', str(e))}, c
    for rid, text, fn in mod.RULES:
        c.guard(rid, fn)
    known = C.load_known(prop)
    d = {}
    for rule, k, st, msg, loc in c.obs:
        if rule + '|' + k in known:
            continue
        if d.get(rule + '|' + k, ('', ''))[0] != 'bad':
            d[rule + '|' + k] = (st, msg)
    return d, c


# ---------------------------------------------------------------- mutants
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def trivial(st):
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
        return True
    if isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom)):
        return True
    t = ast.unparse(st)
    return isinstance(st, ast.Expr) and ('logger' in t or 'print(' in t or 'warn' in t)


def mutants(fn):
    """yield (description, new function node)"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def with_(f):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            f(m)
            return c
        src = ast.unparse(n)[:70] if not isinstance(n, (ast.arguments, ast.FunctionDef)) and hasattr(n, 'lineno') else ''
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            def f(m):
                m.ops[0] = CMP[type(m.ops[0])]()
            yield ('%d cmp %s' % (ln, src), with_(f))
        elif isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield ('%d bool %s' % (ln, src), with_(f))
            for j in range(len(n.values)):
                def f(m, j=j):
                    del m.values[j]
                    if len(m.values) == 1:
                        m.values.append(m.values[0])
                yield ('%d drop-cond %d %s' % (ln, j, src), with_(f))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            def f(m):
                m.op = BIN[type(m.op)]()
            yield ('%d arith %s' % (ln, src), with_(f))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            def f(m):
                m.op = BIN[type(m.op)]()
            yield ('%d aug %s' % (ln, src), with_(f))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            def f(m):
                m.value = m.value + 1
            yield ('%d const %s' % (ln, src), with_(f))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m):
                m.value = not m.value
            yield ('%d bool const' % ln, with_(f))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            def f(m):
                m.op = ast.UAdd() if not isinstance(m.op, ast.Not) else ast.Not()
                if isinstance(m.op, ast.Not):
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield ('%d unary %s' % (ln, src), with_(f))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            def f(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            t = ast.unparse(n.func)
            if 'logger' not in t and 'format' not in t:
                yield ('%d swap-args %s' % (ln, src), with_(f))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for j, st in enumerate(b):
                if trivial(st) or not isinstance(st, ast.stmt):
                    continue

                def f(m, j=j, fld=fld):
                    b = getattr(m, fld)
                    b[j] = ast.copy_location(ast.Pass(), b[j])
                yield ('%d delete %s' % (st.lineno, ast.unparse(st).split('\n')[0][:70]), with_(f))
        if isinstance(n, ast.If):
            def f(m):
                m.test = ast.Constant(True)
            yield ('%d if-true %s' % (ln, ast.unparse(n.test)[:60]), with_(f))


# ---------------------------------------------------------------- behaviour-preserving edits
def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def binds(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def refactors(fn, cls, kind):
    """yield (description, new function node, helper node or None)"""
    nodes = list(ast.walk(fn))

    def with_(i, f):
        c = copy.deepcopy(fn)
        r = f(list(ast.walk(c))[i])
        return c if r is not False else None
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.If):
            if n.orelse:
                def f(m):
                    m.test = ast.UnaryOp(ast.Not(), m.test)
                    m.body, m.orelse = m.orelse, m.body
                yield ('%d invert-if' % ln, with_(i, f), None)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                def f(m):
                    m.body = [ast.If(m.test.values[-1], m.body, [])]
                    m.test = m.test.values[0] if len(m.test.values) == 2 else ast.BoolOp(ast.And(), m.test.values[:-1])
                yield ('%d nest-if' % ln, with_(i, f), None)

            def f(m):
                m.test = ast.Call(ast.Name('bool', ast.Load()), [m.test], [])
            yield ('%d bool()' % ln, with_(i, f), None)
        if isinstance(n, ast.BoolOp):
            def f(m):
                neg = [ast.UnaryOp(ast.Not(), v) for v in m.values]
                x = ast.BoolOp(ast.Or() if isinstance(m.op, ast.And) else ast.And(), neg)
                m.op, m.values = ast.And(), [ast.UnaryOp(ast.Not(), x), ast.Constant(True)]
            if isinstance(getattr(n, 'ctx', None), type(None)) and in_test(fn, n):
                yield ('%d demorgan' % ln, with_(i, f), None)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Name, ast.Attribute)):
            pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if type(n.ops[0]) in SW:
                def f(m):
                    m.left, m.comparators[0] = m.comparators[0], m.left
                    m.ops[0] = SW[type(m.ops[0])]()
                yield ('%d swap-cmp %s' % (ln, ast.unparse(n)[:50]), with_(i, f), None)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            if isinstance(n, ast.ClassDef):
                continue
            # temp variable for the value of a statement
            for j, st in enumerate(b):
                if trivial(st):
                    continue
                if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and st.value is not None:
                    def f(m, j=j, fld=fld):
                        bb = getattr(m, fld)
                        s = bb[j]
                        t = ast.Assign([ast.Name('tmp_value', ast.Store())], s.value, lineno=s.lineno)
                        s.value = ast.Name('tmp_value', ast.Load())
                        bb.insert(j, t)
                    yield ('%d temp-stmt %s' % (st.lineno, ast.unparse(st)[:50]), with_(i, f), None)
                # temp for call arguments
                if isinstance(st, (ast.Expr, ast.Assign, ast.Return)) and isinstance(st.value, ast.Call) and st.value.args \
                        and not any(isinstance(a, ast.Starred) for a in st.value.args):
                    def f(m, j=j, fld=fld):
                        bb = getattr(m, fld)
                        s = bb[j]
                        t = ast.Assign([ast.Name('tmp_arg', ast.Store())], s.value.args[0], lineno=s.lineno)
                        s.value.args[0] = ast.Name('tmp_arg', ast.Load())
                        bb.insert(j, t)
                    yield ('%d temp-arg %s' % (st.lineno, ast.unparse(st)[:50]), with_(i, f), None)
                if isinstance(st, ast.If):
                    def f(m, j=j, fld=fld):
                        bb = getattr(m, fld)
                        s = bb[j]
                        t = ast.Assign([ast.Name('tmp_cond', ast.Store())], s.test, lineno=s.lineno)
                        s.test = ast.Name('tmp_cond', ast.Load())
                        bb.insert(j, t)
                    yield ('%d temp-cond' % st.lineno, with_(i, f), None)
                    # if X: return/raise ... else: rest
                    if st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                        def f(m, j=j, fld=fld):
                            bb = getattr(m, fld)
                            s = bb[j]
                            bb[j + 1:j + 1] = s.orelse
                            s.orelse = []
                        yield ('%d drop-else' % st.lineno, with_(i, f), None)
                    if j == len(b) - 1 and not st.orelse and isinstance(n, ast.FunctionDef) and n is fn:
                        def f(m, j=j, fld=fld):
                            bb = getattr(m, fld)
                            s = bb.pop()
                            bb.append(ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], []))
                            bb.extend(s.body)
                        yield ('%d early-return' % st.lineno, with_(i, f), None)
                    if j == len(b) - 1 and not st.orelse and isinstance(n, ast.For):
                        def f(m, j=j, fld=fld):
                            bb = getattr(m, fld)
                            s = bb.pop()
                            bb.append(ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], []))
                            bb.extend(s.body)
                        yield ('%d continue' % st.lineno, with_(i, f), None)
                    if not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and j < len(b) - 1:
                        def f(m, j=j, fld=fld):
                            bb = getattr(m, fld)
                            s = bb[j]
                            s.orelse = bb[j + 1:]
                            del bb[j + 1:]
                        yield ('%d add-else' % st.lineno, with_(i, f), None)
                if isinstance(st, ast.For) and not st.orelse:
                    def f(m, j=j, fld=fld):
                        bb = getattr(m, fld)
                        s = bb[j]
                        s.iter = ast.Call(ast.Name('list', ast.Load()), [s.iter], [])
                    yield ('%d list()' % st.lineno, with_(i, f), None)
                    if isinstance(st.target, ast.Name):
                        def f(m, j=j, fld=fld):
                            bb = getattr(m, fld)
                            s = bb[j]
                            t = s.target
                            s.target = ast.Tuple([ast.Name('_idx', ast.Store()), t], ast.Store())
                            s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], [])
                        yield ('%d enumerate()' % st.lineno, with_(i, f), None)
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.value, ast.IfExp):
                    def f(m, j=j, fld=fld):
                        bb = getattr(m, fld)
                        s = bb[j]
                        v = s.value
                        a, bq = copy.deepcopy(s), copy.deepcopy(s)
                        a.value, bq.value = v.body, v.orelse
                        bb[j] = ast.If(v.test, [a], [bq])
                    yield ('%d ifexp->if' % st.lineno, with_(i, f), None)
            # extract a run of statements into a helper
            L = len(b)
            spans = set()
            for a in range(L):
                for z in (a + 1, a + 2, a + 3, L):
                    if a < z <= L:
                        spans.add((a, z))
            for a, z in sorted(spans):
                blk = b[a:z]
                if all(trivial(x) for x in blk) or (n is fn and fld == 'body' and z - a == L and L > 1 and False):
                    continue
                h = extract(fn, i, fld, a, z, cls, kind)
                if h is not None:
                    yield ('%d extract %d stmts %s' % (blk[0].lineno, z - a, ast.unparse(blk[0]).split('\n')[0][:40]),) + h


def in_test(fn, node):
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and any(x is node for x in ast.walk(n.test)):
            return True
    return False


def extract(fn, i, fld, a, z, cls, kind):
    c = copy.deepcopy(fn)
    m = list(ast.walk(c))[i]
    bb = getattr(m, fld)
    blk = bb[a:z]
    for x in blk:
        for y in ast.walk(x):
            if isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ListComp,
                              ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                return None
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('super', 'locals'):
                return None
            if isinstance(y, ast.Name) and y.id == '__class__':
                return None
    # no break/continue escaping; return only if the block is last in the function and always returns
    hasret = any(isinstance(y, ast.Return) for x in blk for y in ast.walk(x))

    def esc(x, inloop):
        if isinstance(x, (ast.Break, ast.Continue)) and not inloop:
            return True
        return any(esc(y, inloop or isinstance(x, (ast.For, ast.While))) for y in ast.iter_child_nodes(x))
    if any(esc(x, False) for x in blk):
        return None
    ret_tail = False
    if hasret:
        if not (m is c and z == len(bb)):
            return None
        ret_tail = True
    if any(isinstance(y, ast.Raise) and y.exc is None for x in blk for y in ast.walk(x)):
        return None
    params = [p.arg for p in c.args.posonlyargs + c.args.args + c.args.kwonlyargs]
    if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fn.decorator_list):
        return None
    if c.args.vararg:
        params.append(c.args.vararg.arg)
    if c.args.kwarg:
        params.append(c.args.kwarg.arg)
    local = set(params) | binds(c)
    for x in ast.walk(c):
        if isinstance(x, ast.ExceptHandler) and x.name:
            local.add(x.name)
        if isinstance(x, ast.FunctionDef) and x is not c:
            local.add(x.name)
            if any(y is m for y in ast.walk(x)):
                return None
    used = set()
    bound = set()
    for x in blk:
        used |= loads(x)
        bound |= binds(x)
        for y in ast.walk(x):
            if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
                used.add(y.target.id)
    # names used elsewhere
    others = set()
    cnt = {}
    for x in ast.walk(c):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            cnt[x.id] = cnt.get(x.id, 0) + 1
    for x in blk:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                cnt[y.id] -= 1
    inloop = any(isinstance(x, (ast.For, ast.While)) and any(y is blk[0] for y in ast.walk(x)) for x in ast.walk(c))
    outs = sorted(v for v in bound if cnt.get(v, 0) > 0 or inloop)
    # possibly-unbound outputs: pass the old value in when it is bound before
    ins = sorted((used & local) - {'self', 'cls'})
    first = {}
    safe_ins = []
    definitely = set(params)
    # conservative: names bound before the block textually
    seen_b = set(params)
    for x in ast.walk(c):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < blk[0].lineno:
            seen_b.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name and x.lineno < blk[0].lineno:
            seen_b.add(x.name)
    for v in ins:
        if v in bound and v not in seen_b:
            continue
        if v not in seen_b:
            return None
        safe_ins.append(v)
    for v in outs:
        if v not in safe_ins and v in seen_b:
            safe_ins.append(v)
    # an output must be definitely assigned in the block or come in
    for v in outs:
        if v not in safe_ins and not any(isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and v in binds(x) for x in blk):
            return None
    if ret_tail and outs:
        outs = []
    isself = params[:1] == ['self'] and cls is not None
    hname = '_extracted_part'
    # names that exist only within the except handler scope etc. are ignored
    body = list(blk)
    if not ret_tail and outs:
        body = body + [ast.Return(ast.Name(outs[0], ast.Load()) if len(outs) == 1 else
                                  ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()))]
    hargs = (['self'] if isself else []) + safe_ins
    helper = ast.FunctionDef(hname, ast.arguments([], [ast.arg(x) for x in hargs], None, [], [], None, []), body, [], None)
    callee = ast.Attribute(ast.Name('self', ast.Load()), hname, ast.Load()) if isself else ast.Name(hname, ast.Load())
    call = ast.Call(callee, [ast.Name(x, ast.Load()) for x in safe_ins], [])
    if ret_tail:
        st = ast.Return(call)
    elif outs:
        tgt = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())
        st = ast.Assign([tgt], call, lineno=blk[0].lineno)
    else:
        st = ast.Expr(call)
    bb[a:z] = [st]
    return c, (helper, isself)


# ---------------------------------------------------------------- driver
def splice(path, lineno, newfn, helper):
    src = open(path).read()
    tree = ast.parse(src)
    target = parent = None
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            if isinstance(c, ast.FunctionDef) and (c.lineno == lineno or (c.decorator_list and c.lineno == lineno)):
                target, parent = c, p
    lines = src.split('\n')
    start = min([target.lineno] + [d.lineno for d in target.decorator_list]) - 1
    end = target.end_lineno
    ind = ' ' * target.col_offset
    ast.fix_missing_locations(newfn)
    out = [ind + l if l else l for l in ast.unparse(newfn).split('\n')]
    if helper:
        h, isself = helper
        ast.fix_missing_locations(h)
        hs = ast.unparse(h).split('\n')
        if isself:
            out = [ind + l if l else l for l in hs] + [''] + out
            lines[start:end] = out
        else:
            # module level: before the enclosing top-level statement
            lines[start:end] = out
            top = None
            for t in tree.body:
                if t.lineno <= lineno <= t.end_lineno:
                    top = t
            s = min([top.lineno] + [d.lineno for d in getattr(top, 'decorator_list', [])]) - 1
            lines[s:s] = hs + ['', '']
    else:
        lines[start:end] = out
    return '\n'.join(lines)


def job(a):
    prop, desc, path, text, base = a
    d = os.path.join('/tmp/mt', str(os.getpid()))
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree('/repo/py_gnome/gnome', os.path.join(d, 'py_gnome', 'gnome'),
                        ignore=lambda p, ns: [n for n in ns if not (os.path.isdir(os.path.join(p, n)) or n.endswith(('.py', '.pyx', '.pxd')))])
    tgt = path.replace('/repo/', d + '/', 1)
    orig = open(tgt).read()
    open(tgt, 'w').write(text)
    import time
    t0 = time.time()
    try:
        r, _ = run_check(prop, d)
        if time.time() - t0 > 25:
            print('SLOW', round(time.time() - t0), desc, flush=True)
    except Exception as e:
        r = {'crash': ('err', repr(e))}
    finally:
        open(tgt, 'w').write(orig)
    bad = {k: v for k, v in r.items() if v[0] == 'bad'}
    unk = {k: v for k, v in r.items() if v[0] in ('unk', 'err')}
    return desc, bad, unk


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    flt = [x for x in sys.argv[3:] if not x.startswith('-')]
    verbose = '-v' in sys.argv
    base, c = run_check(prop, '/repo')
    assert not any(v[0] in ('bad', 'err') for v in base.values()), [k for k, v in base.items() if v[0] == 'bad']
    targets = set(getattr(c, 'contracts', set()))
    mod = importlib.import_module('props.' + prop.lower())
    for q in getattr(mod, 'MT', ()):
        for f in q(c):
            targets.add((f.module.path, f.node.lineno, f.qualname))
    jobs = []
    rnd = random.Random(int(os.environ.get('SEED', '1')))
    for path, lineno, q in sorted(targets):
        if flt and not any(x in q for x in flt):
            continue
        tree = ast.parse(open(path).read())
        fn = cls = None
        for p in ast.walk(tree):
            for ch in ast.iter_child_nodes(p):
                if isinstance(ch, ast.FunctionDef) and ch.lineno == lineno:
                    fn, cls = ch, p if isinstance(p, ast.ClassDef) else None
        if fn is None:
            continue
        if mode == 'mut':
            for desc, new in mutants(fn):
                jobs.append((prop, q + ' ' + desc, path, splice(path, lineno, new, None), None))
        else:
            for desc, new, helper in refactors(fn, cls, None):
                if new is None:
                    continue
                jobs.append((prop, q + ' ' + desc, path, splice(path, lineno, new, helper), None))
    lim = int(os.environ.get('MAX', '400'))
    if len(jobs) > lim:
        jobs = rnd.sample(jobs, lim)
    ok = []
    for j in jobs:
        try:
            ast.parse(j[3])
            ok.append(j)
        except SyntaxError as e:
            print('syntax', j[1], e)
    caught = und = missed = 0
    known_unk = {k for k, v in base.items() if v[0] == 'unk'}
    shown = 0
    with Pool(8) as pool:
        for desc, bad, unk in pool.imap_unordered(job, ok):
            unk = {k: v for k, v in unk.items() if k not in known_unk}
            if mode == 'mut':
                if bad:
                    caught += 1
                elif unk:
                    und += 1
                    print('UND   ', desc, '|', list(unk.items())[0] if verbose else '')
                else:
                    missed += 1
                    print('MISSED', desc)
            else:
                if bad:
                    caught += 1
                    print('ALARM ', desc, '|', list(bad.items())[0])
                elif unk:
                    und += 1
                    print('UND   ', desc, '|', list(unk.items())[0] if verbose else '')
                else:
                    missed += 1
    print('%s %s: %d edits: %s %d, undecided %d, %s %d' % (prop, mode, len(ok), 'caught' if mode == 'mut' else 'FALSE ALARMS', caught, und,
                                                          'missed' if mode == 'mut' else 'quiet', missed))
    shutil.rmtree('/tmp/mt', ignore_errors=True)


if __name__ == '__main__':
    main()
