#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md: each patch is applied to a
scratch copy of /repo and the check of its property is run on it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tool = sys.argv[1] if len(sys.argv) > 1 else '/tmp/rdapcheck'
W = '/tmp/table-copy'
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    subprocess.run(['git', '-C', W, 'apply', d + '/patch.diff'], check=True)
    r = subprocess.run([tool, '-n', '-repo', W, '-property', m['property']], capture_output=True, text=True, errors='replace')
    msg = r.stdout.splitlines()[0] if r.returncode == 1 else ''
    rule = msg.split('[', 1)[1].split(']')[0] if '[' in msg else ''
    where = ':'.join(msg.split(':')[:2]) if msg else ''
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), ('caught: rule %s, %s' % (rule, where)) if r.returncode == 1 else 'missed'))
    print(rows[-1])
shutil.rmtree(W, ignore_errors=True)
b, e = '<!-- seeded -->\n', '<!-- end seeded -->\n'
s = open(V + '/DESIGN.md').read()
t = b + '| planted bug | property | what it breaks | result |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + e
if b in s:
    s = s[:s.index(b)] + t + s[s.index(e) + len(e):]
else:
    s += '\n## Planted bugs\n\n' + t
open(V + '/DESIGN.md', 'w').write(s)
