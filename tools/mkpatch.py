#!/usr/bin/env python3
# mkpatch.py ID FILE < blocks: "<<<<\nold====\nnew>>>>" (an optional "FILE:path" line before a block switches file); paths are relative to /repo/src/vmime
import sys, re, difflib
id, cur = sys.argv[1], sys.argv[2]; old, new = {}, {}
for m in re.finditer(r'(?:^FILE:(\S+)\n)?^<<<<\n(.*?)^====\n(.*?)^>>>>', sys.stdin.read(), flags=re.M | re.S):
    if m.group(1): cur = m.group(1)
    p = cur if cur.startswith('src/') else 'src/vmime/' + cur
    if p not in old: old[p] = new[p] = open('/repo/' + p).read()
    assert new[p].count(m.group(2)) == 1, (id, new[p].count(m.group(2)), m.group(2))
    new[p] = new[p].replace(m.group(2), m.group(3))
with open('/verif/seeded/%s/patch.diff' % id, 'w') as f:
    for p in old:
        f.write('diff --git a/%s b/%s\n' % (p, p))
        f.writelines(difflib.unified_diff(old[p].splitlines(True), new[p].splitlines(True), 'a/' + p, 'b/' + p))
