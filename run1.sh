#!/bin/bash
# run1.sh harness [absint args]: compile one harness and analyse it (development helper)
h=$1; shift
T=${TMPDIR:-/tmp}/vf; mkdir -p $T
REPO=${VF_REPO:-/repo}
/usr/lib/llvm-18/bin/clang++ -std=c++11 -O0 -Xclang -disable-O0-optnone -g -fno-access-control -fno-delete-null-pointer-checks -fno-discard-value-names -w -D_FILE_OFFSET_BITS=64 -D__ABC__LINUX=1 -D__ABC__OPENSSL=1 -I$REPO/src -c -emit-llvm /verif/harness/$h.cpp -o $T/$h.bc || exit 3
/verif/bin/absint $T/$h.bc $T/$h.json --src $REPO/src/ --models /verif/harness/models.txt --format $(sed -n "s,^// absint: ,,p" /verif/harness/$h.cpp) "$@"
python3 - $T/$h.json <<'PY'
import json,sys
d=json.load(open(sys.argv[1]))
for e in d['entries']:
    ob=e['obligations']; nt=[o for o in ob if not o['trivial']]
    print(e['name'],'blocks',e['blocks'],'states',e['states'],'iters',e['iters'],'obl',len(ob),'nontriv',len(nt),'bad',sum(not o['ok'] for o in ob),'reach',e['reach'],'CAPPED' if e['capped'] else '', 'FAILED '+e['error'] if e['failed'] else '')
    for o in ob:
        if not o['ok']: print('   BAD',o['kind'],o['msg'],'\n      ',o['chain'],'\n      ',o['witness'][:600])
    if '-u' in sys.argv or True: print('   unmodelled:',[u for u in e['unmodelled'] if 'vf_log' not in u])
print(d['notes'])
PY
