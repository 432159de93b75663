#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py, and harness/src/all.rs + the feature lists from harness/src."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NA  # noqa: E402
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
ch = []
for i in ids:
    if i in PROPS:
        ch.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json',
                       technique='symbolic execution of the LLVM IR of the real crate, z3 deciding branches and assertions, counterexamples replayed natively',
                       level='model_checking',
                       level_note='Holds for every input within the bounds: ' + PROPS[i]['bounds'] + ' Trusts the IR executor (validated against native runs on every check), rustc/LLVM, z3, and a constant-hash stand-in for ahash.'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=ch, not_applicable=[dict(property=i, reason=NA.get(i, 'no check yet')) for i in ids if i not in PROPS],
         notes='Solver-based checking of the real code: engine/ executes the LLVM IR of /repo symbolically. See DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
fs = sorted(os.path.basename(f)[:-3] for f in glob.glob(V + '/harness/src/c[0-9][0-9].rs'))
s = '//! Every harness, shared verbatim by the symbolic build (LLVM IR) and the native replay build.\n#[macro_use]\n#[path = "util.rs"]\npub mod util;\n'
for f in fs:
    s += f'#[cfg(feature = "{f}")]\n#[path = "{f}.rs"]\npub mod {f};\n'
s += '\npub fn all() -> Vec<(&\'static str, fn())> {\n    let mut v: Vec<(&\'static str, fn())> = Vec::new();\n'
for f in fs:
    s += f'    #[cfg(feature = "{f}")]\n    v.extend_from_slice({f}::LIST);\n'
s += '    v\n}\n'
open(V + '/harness/src/all.rs', 'w').write(s)
for c in ('harness', 'native'):
    t = open(f'{V}/{c}/Cargo.toml').read()
    t = re.sub(r'\[features\]\n(.*?)\n\n', '[features]\n' + '\n'.join(f'{f} = []' for f in fs) + '\n\n', t, flags=re.S)
    open(f'{V}/{c}/Cargo.toml', 'w').write(t)
