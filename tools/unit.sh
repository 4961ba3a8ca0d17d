#!/bin/bash
# unit.sh PID [UNIT-substring]: run units and print a digest
cd /verif
for u in $(python3-vt -c "
import sys; sys.path.insert(0,'/verif')
import importlib
for u in importlib.import_module('specs.$1'.lower()).UNITS:
    if '$2' in u.name: print(u.name)"); do
o=$(mktemp); python3-vt -O pyvc/rununit.py $1 $u $o
python3 - $o <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print('%-40s %-9s n=%s paths=%s/%s wall=%s solver=%s'%(d['unit'],d['status'],d.get('n'),d.get('completed'),d.get('paths'),d['wall'],d.get('solver_s')))
for x in d['undecided'][:6]: print('   undecided:',x)
for x in d['exceptions'][:6]: print('   exception:',x)
for a in d['obligations']:
    if a['refuted'] or a['unknown']:
        print('   %-50s proved %d refuted %d unknown %d'%(a['name'],a['proved'],a['refuted'],a['unknown']))
        f=a.get('fail') or a.get('unk')
        if f:
            for k,v in f.items(): print('       ',k,str(v)[:700])
if d.get('vacuous'): print('   VACUOUS',d['vacuous'])
P
rm -f $o
done
