"""text mutations of native sources: mtx.py Cnn FILE [from:to] [-v]   (env MAX, SEED, REFS=1 for behaviour-preserving edits)"""
import os
import random
import re
import shutil
import subprocess
import sys

prop, rel = sys.argv[1], sys.argv[2]
verb = '-v' in sys.argv
rng = next((a for a in sys.argv[3:] if ':' in a), None)
root = '/tmp/mtx'
src = os.path.join('/repo/py_gnome', rel)
text = open(src, encoding='utf-8', errors='surrogateescape').read()
lines = text.split('\n')
RULES = [(r'(?<![<>=!-])<(?![<=])(?= )', '<='), (r'(?<![<>=!-])>(?![>=])(?= )', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
         (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'&&', '||'), (r'\|\|', '&&'),
         (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\[0\]', '[1]'), (r', 0\]', ', 1]'), (r', 1\]', ', 0]'),
         (r'(?<![\w.\[])1(?![\w.\]])', '2'), (r'(?<![\w.])0(?![\w.])', '1'), (r'\bx([01])\b', r'y\1'), (r'(\d+\.\d+)', r'(\1 * 1.5)'),
         (r'\b(p?Lat)\b', 'pLong'), (r'\bu\b', 'v'), (r'\.lat\b', '.long'), (r'sin\(', 'cos('), (r'cos\(', 'sin('), (r'\+=', '-='), (r'-=', '+='), ('DEL', '')]
if os.environ.get('REFS'):
    V = r'((?:\(\*\w+\)|\w+)(?:(?:->|\.)\w+|\[\w+\])*)'
    CPP = not rel.endswith('.pyx')
    RULES = [(r'(?<![-+*/.\w])%s \* %s(?![\w(.\[^-])' % (V, V), r'\2 * \1'), (r'(?<![-+*/.\w])%s < %s(?![\w(.\[+*/-])(?! [-+*/])' % (V, V), r'\2 > \1'),
             (r'(?<![-+*/.\w])%s > %s(?![\w(.\[+*/-])(?! [-+*/])' % (V, V), r'\2 < \1'),
             (r'(?<![-+*/.\w])%s == %s(?![\w(.\[+*/-])(?! [-+*/])' % (V, V), r'\2 == \1'), (r'^(\s*)%s \+= (.*[^;,]);?$' % V, r'\1\2 = \2 + (\3)' + ';' * CPP)]
    if CPP:
        RULES += [(r'(\w+)\+\+\)', r'++\1)'), (r'^(\s*)return ([^;]*\w\([^;]*);$', r'\1{ const auto result = \2; return result; }'), (r'^(\s*)if ?\((.*)\)\s*(\{?)$', r'\1if (!(!(\2))) \3'),
                  (r'this->', ''), (r'\(\*(\w+)\)\.', r'\1->')]
    else:
        RULES += [(r'^(\s*)return (.*\(.*\))$', r'\1result = \2; return result'), (r'^(\s*)if (.*):$', r'\1if not (not (\2)):')]


def code_lines():
    a, b = (0, len(lines)) if not rng else (int(rng.split(':')[0]) - 1, int(rng.split(':')[1]))
    doc = False
    for i in range(len(lines)):
        s = lines[i].strip()
        q = s.count('"""') + s.count("'''")
        if rel.endswith('.pyx'):
            if doc or q:
                if q % 2:
                    doc = not doc
                continue
        else:
            if '/*' in s:
                doc = True
            if doc:
                if '*/' in s:
                    doc = False
                continue
        if not (a <= i < b) or not s or s[0] == '#' or s.startswith('//') or 'import' in s or s.startswith('cdef class') or s.startswith('@'):
            continue
        yield i


muts = []
for i in code_lines():
    l = lines[i]
    c = re.split(r'\s+#|//', l)[0]
    for pat, rep in RULES:
        if pat == 'DEL':
            s = c.strip()
            if re.match(r'[\w.\[\], ]+ ?[-+*]?= ?[^=].*[^,(:\\]$', s) and s.count('(') == s.count(')') and not s.startswith('cdef'):
                ind = c[:len(c) - len(c.lstrip())]
                muts.append((i, ind + ('pass' if rel.endswith('.pyx') else ';')))
            continue
        for m in re.finditer(pat, c):
            muts.append((i, c[:m.start()] + m.expand(rep) + c[m.end():]))
random.Random(int(os.environ.get('SEED', '1'))).shuffle(muts)
muts = muts[:int(os.environ.get('MAX', '60'))]
shutil.rmtree(root, ignore_errors=True)
os.makedirs(root)
subprocess.run('mkdir -p %s/py_gnome && cp -a /repo/py_gnome/gnome /repo/py_gnome/lib_gnome %s/py_gnome/ && cp -a /verif %s/verif' % (root, root, root), shell=True, check=True)
dst = os.path.join(root, 'py_gnome', rel)
n = caught = 0
for i, new in muts:
    if new == lines[i]:
        continue
    out = list(lines)
    out[i] = new
    open(dst, 'w', encoding='utf-8', errors='surrogateescape').write('\n'.join(out))
    r = subprocess.run([sys.executable, 'check.py', prop], cwd=root + '/verif', env=dict(os.environ, VERIF_REPO=root, VERIF_ONLY='.' + os.path.basename(rel).rsplit('.', 1)[0] + '.'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n += 1
    if os.environ.get('REFS'):
        if r.returncode == 1:
            caught += 1
            print('ALARM %d: %s -> %s  %s' % (i + 1, lines[i].strip()[:90], new.strip()[:90], r.stdout.split('\n')[0][:200]))
        elif ' 0 undecided' not in r.stdout:
            print('und %d: %s -> %s  %s' % (i + 1, lines[i].strip()[:60], new.strip()[:60], [l for l in r.stdout.split('\n') if 'undecided:' in l][:1][0][:160]))
        continue
    if r.returncode == 1 and 'VIOLATION' in r.stdout:
        caught += 1
    else:
        print('missed %d: %s -> %s   [%s]' % (i + 1, lines[i].strip()[:70], new.strip()[:70], r.stdout.strip().split('\n')[-1][-60:] if r.returncode else 'quiet' + re.search(r'\d+ undecided', r.stdout).group(0)))
print('%s %s: %d mutations, %d caught' % (prop, rel, n, caught))
shutil.rmtree(root)
