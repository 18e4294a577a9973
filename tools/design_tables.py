import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=d.split('/')[-2]; m=json.load(open(d+'meta.json'))
    rows.append((i,m['property'],m['what_it_breaks'].replace('\n',' ').replace('|','/')))
missed={'F06-append-unconverted':'yes: P18 only appended elements that need no conversion','C17-conditional-delay':'yes: branches of a conditional were not in the alignment rule of P21','C18-retro-norm2':'by P33 (P25 caught it): epsilons were not compared','C21-shared-stage':'yes: P18 had no net that uses one module twice','D10-lambda-step-own-fn':'yes: P28 only used functions that ignore the rank of what they get','E07-sorted-state-names':'yes: P16 used fewer than ten states'}
out=['''
## 7. Planted bugs and the checks that catch them

Each lives in `seeded/<id>/` (patch, demonstration, meta). All pass the stable tests; the demonstration separates patched from clean;
the check of the property named exits 1 on it. "Missed at first" says where a check had to be strengthened because of it.

| planted bug | caught by | breaks | missed at first |
|---|---|---|---|''']
for i,p,b in rows: out.append(f'| {i} | {p} | {b} | {missed.get(i,"")} |')
out.append('''
Bugs that the stable tests already catch are not kept; five earlier attempts (early return in the functional step of
BroadcastReduce, padding from the first frame, dropped `None` states, in-place products and sums, pools handing out their buffer) were all reported by the
checks as well.

Besides, `tools/mutate.py` makes random single-site mutations (operators, constants, swapped arguments, dropped statements) of the package in scratch
copies, keeps those that pass the stable tests and runs all checks on them. Survivors were looked at one by one: they were equivalent mutants, changes in
text of messages and docstrings, unreachable code, or gaps that were closed. Known gaps: the float constants in the pattern of
`CyclicPositionalEncoding` (no oracle in the source) and the default of `keep_vars` in `utils.state_dict`.

## 8. Quiet on edits that keep the behaviour

`tools/refactorings/*.py` are sets of behaviour-preserving edits (helpers extracted, loops rewritten as comprehensions, `while` or `zip`, early returns, other
spellings of the same tensor operation - `select`/`narrow`/`cat`/`@`/`roll`, sentinels instead of flags, state kept under other local names, reordered
independent statements) written without looking at the rules. They touch every module of the package. `tools/refactor.py` applies a set to a scratch copy, runs the stable
tests on it and then every check; the checks must exit 0. Alarms found this way were defects of the machinery and were
removed by widening the model (never by special-casing the edit): sizes and contents of `narrow`, slices and `torch.cat`; numerically equal roots
(`x / sqrt(E)` and `x * (1 / sqrt(E))`) in an exact algebra; sentinels; `__class__`; unknown-length `while` loops cut like `for` loops.
Two general safeguards: a verdict that depends on a term the interpreter has no model for is "undetermined", not "violated"; and nothing is concluded from a path
that has to assume that a computed tensor of unknown shape is empty.
''')
s=open('/verif/DESIGN.md').read()
i=s.find('\n## 7. Planted bugs')
if i>=0: s=s[:i]
open('/verif/DESIGN.md','w').write(s.rstrip('\n')+'\n'+'\n'.join(out))
