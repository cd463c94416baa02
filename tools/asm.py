"""assemble a draft specs/<prop>.spec from the current source (to be reviewed and then edited by hand):
asm.py C11 < sections, each '## Rn text' followed by lines of spec.py arguments; '-name' drops a block"""
import re
import subprocess
import sys

out, drops, args, head = [], set(), [], None


def flush():
    if head is None:
        return
    t = subprocess.run(['python3', '/verif/tools/spec.py', *args], stdout=subprocess.PIPE, text=True, check=True).stdout if args else ''
    t = re.sub(r"   # \['(classmethod|staticmethod)'\]", '', t)
    bl = [b for b in re.split(r'(?m)^(?=@ )', t) if not any(re.search(d, b.split('\n')[0].split('|')[0].strip()) for d in drops)]
    out.append(head + '\n' + ''.join(bl))


for line in sys.stdin.read().split('\n'):
    if line.startswith('## '):
        flush()
        head, args, drops = line, [], set()
    else:
        for w in line.split():
            if w[0] == '-':
                drops.add(w[1:])
            else:
                args.append(w)
flush()
open('/verif/specs/%s.spec' % sys.argv[1], 'w').write(''.join(out))
