#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py."""
import json, os, sys
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,H)
import specs
SE='symbolic execution of the LLVM IR of the current source; every assertion decided by z3; counterexamples replayed natively'
X={'C08':'symbolic execution of the LLVM IR to terms; formula and derivative identities decided by z3 over log/pow normal form; counterexamples replayed natively',
   'C19':'symbolic execution of the LLVM IR; term differentiation; polynomial identities decided by exact normal form / z3',
   'C18':'symbolic execution of the LLVM IR; term differentiation; z3 over the reals'}
N={'C22':'Convergence is claimed in the bounded form of the statement, not as a limit. n and R are enumerated by the executor; the coefficients of the integrand are solver variables. ','C02':'Two known findings (Ahrens-Beylkin sizes 552 and 5472) are reported as KNOWN-FINDING. The tables are concrete: the solver ranges over the requested size, and over all harmonic coefficients of each degree; moments are evaluated in compensated double arithmetic. ',
   'C04':'n is enumerated by the executor within the bound; polynomial coefficients are solver variables. ','C05':'n is enumerated by the executor within the bound; polynomial coefficients are solver variables. ','C06':'n is enumerated by the executor within the bound; polynomial coefficients are solver variables. '}
checks=[]
for p in sorted(specs.SPECS):
    checks.append(dict(property=p,quick_cmd='python3 check.py '+p,thorough_cmd='VERIF_TIER=thorough python3 check.py '+p,evidence_file='evidence/%s.json'%p,technique=X.get(p,SE),level='model_checking',
        level_note=N.get(p,'')+'Holds for every value within: '+specs.SPECS[p]['bounds']+'. Nothing is claimed outside these bounds. Trusts clang -O1, the executor (engine/symex.cpp, cross-checked by replaying path witnesses natively), z3, and real arithmetic for symbolic doubles.'))
json.dump(dict(version=1,setup_cmd='python3 -c "import check; check.engine()"',checks=checks,
    not_applicable=[],
    notes='No hooks are needed: checks compile /repo/include and the harnesses in /verif/harness. Known findings: known_findings.jsonl. Engine and bounds: DESIGN.md.'),open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
