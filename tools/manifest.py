#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harnesses present and the not-applicable reasons below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C27': "The parser (include/xtypes/idl/parser.hpp, grammar.hpp) only exists on top of cpp-peglib: parser.hpp includes peglib.h, which the build downloads and which is not in the repository; in this sandbox /repo/_build/thirdparty/cpp-peglib/peglib.h is an empty placeholder, so the parser cannot even be compiled here, let alone encoded, and no counterexample could be replayed. The type-building calls it makes (Module, StructType, UnionType, EnumerationType, ...) are covered by the other properties.",
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    h = '%s/harness/%s.cpp' % (V, p['id'])
    if not os.path.exists(h):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'No solver-based check has been built for this property yet.')})
        continue
    src = open(h).read()
    es = re.findall(r'^//! entry (\S+)([^:\n]*):\s*(.*)$', src, re.M)
    asm = re.findall(r'^//! assume (.*)$', src, re.M)
    note = 'Every path of the real headers within these bounds, values symbolic unless stated otherwise: ' + '; '.join('%s%s: %s' % (n, ' (thorough only)' if 'tier=thorough' in o else '', b) for n, o, b in es) + '.'
    if asm: note += ' Assumes: ' + '; '.join(asm) + '.'
    note += ' Trusts clang 18 -O1 IR, Z3 and the runtime model (model/rt.cpp); nothing is claimed beyond the bounds.'
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                   'technique': 'bounded symbolic execution of the LLVM bitcode of the real headers, branches and assertions decided by Z3; counterexamples replayed natively under ASan',
                   'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Defects found are repaired by fix: commits or listed in known_findings.json; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
