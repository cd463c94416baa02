"""Development aid (not a check): apply hand-written edits to a scratch copy and show the verdicts.
   python3 tools/hand.py FILE...   each FILE: blocks starting with  '=== NAME | Cnn[,Cnn] | quiet|alarm'
   then for each edit '--- path' , old text, '>>>', new text, or '--- path :: Class.meth' , new function text   (path relative to py_gnome/gnome)"""
import os
import re
import shutil
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
SRC = '/repo/py_gnome'


def blocks(path):
    txt = open(path).read()
    for b in re.split(r'^=== ', txt, flags=re.M)[1:]:
        head, _, body = b.partition('\n')
        name, props, exp = [x.strip() for x in head.split('|')]
        edits = []
        for e in re.split(r'^--- ', body, flags=re.M)[1:]:
            f, _, rest = e.partition('\n')
            if '::' in f:
                # --- path :: Class.meth   followed by the whole new text of the function (and helpers), unindented
                edits.append((f.split('::')[0].strip(), ('fn', f.split('::')[1].strip()), rest))
                continue
            old, _, new = rest.partition('>>>\n')
            edits.append((f.strip(), old, new))
        yield name, props.split(','), exp, edits


def one(job):
    name, props, exp, edits, n = job
    d = '/tmp/hand/%d/py_gnome' % n
    os.makedirs('/tmp/hand/%d' % n, exist_ok=True)
    shutil.copytree(SRC, d, ignore=lambda p, ns: [x for x in ns if not os.path.isdir(os.path.join(p, x))
                                                  and not x.endswith(('.py', '.pyx', '.pxd', '.cpp', '.h', '.H', '.c'))])
    out = []
    try:
        for f, old, new in edits:
            p = os.path.join(d, 'gnome' if not f.startswith('lib_gnome') else '', f)
            s = open(p, errors='surrogateescape').read()
            if isinstance(old, tuple):
                import ast
                import textwrap
                node = ast.parse(s)
                for part in old[1].split('.'):
                    node = next(x for x in node.body if getattr(x, 'name', None) == part)
                lines = s.splitlines(True)
                i = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
                old = ''.join(lines[i:node.end_lineno])
                new = textwrap.indent(new, ' ' * node.col_offset)
            new = new.rstrip('\n') + '\n' if new.strip() else ''
            if s.count(old) != 1:
                return name, 'EDIT %d matches of %r' % (s.count(old), old[:60])
            s = s.replace(old, new)
            if p.endswith('.py'):
                compile(s, p, 'exec')
            open(p, 'w').write(s)
        from mt import run_check
        for prop in props:
            res, c = run_check(prop, '/tmp/hand/%d' % n)
            bad = {k: v for k, v in res.items() if v[0] in ('bad', 'err')}
            unk = {k: v for k, v in res.items() if v[0] == 'unk'}
            v = 'alarm' if bad else 'und' if unk else 'quiet'
            first = next(iter((bad or unk).items()), None)
            out.append('%s %s %s' % (prop, v, '' if v == exp else '<<<<<< ' + (str(first)[:int(os.environ.get('W', '700'))] if first else '')))
    finally:
        shutil.rmtree('/tmp/hand/%d' % n)
    return name, '; '.join(out)


if __name__ == '__main__':
    shutil.rmtree('/tmp/hand', ignore_errors=True)
    jobs = []
    flt = os.environ.get('ONLY')
    for f in sys.argv[1:]:
        for b in blocks(f):
            if not flt or flt in b[0]:
                jobs.append(b + (len(jobs),))
    with Pool(8, maxtasksperchild=1) as p:
        for name, r in p.imap(one, jobs):
            print(name, '|', r)
    shutil.rmtree('/tmp/hand', ignore_errors=True)
