"""Writes MANIFEST.json from the property list and the modules that exist (developer tool)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'complete product of kernels, conditioning methods, gradient masks, noise modes and query kinds; real code in lockstep with an exact reference GP built entry by entry',
 'C02': 'same product as C01; every first and second derivative against the differentiated reference model',
 'C03': 'all masks on both sides of the compiled kernel matrices against entries derived from the kernel definition',
 'C04': 'all masks, noise modes and methods; complex-step derivative of the reference matrix is the oracle',
 'C05': 'all lattice/degenerate point sets and length scales of the bounded grid; eigenvalues of the reference matrix decide',
 'C06': 'complete product; likelihood and closed-form hyperparameters against the Gaussian density, and maximality over an enumerated neighbourhood',
 'C07': 'complete product for gradients, plus every sequence of callback queries up to the bound on one object',
 'C08': 'complete product for both norms, plus every sequence of callback queries up to the bound on one object',
 'C09': 'every sequence of rescaling operations up to the bound, compared with a reference transformation',
 'C10': 'all permutations, translations, scalings and query batches of the bounded domain; relation between two runs of the real code',
 'C11': 'every session history up to the bound on one object, compared with a new object after every step',
 'C12': 'every sequence of prepare/change/evaluate up to the bound against a two-state specification',
 'C13': 'every store/restore/truncate/export/save/load sequence up to the bound against an ideal history',
 'C14': 'every configuration of the bounded product; the outcome of the optimiser is checked against re-evaluated starts, bounds and constraint',
 'C15': 'all nested pairs of data sets and masks of the bounded product',
 'C16': 'all single and paired defects and all consistent combinations of the bounded domain',
 'C17': 'all recorded histories of the bounded domain against the definition of median, span and candidates',
 'C18': 'all noise modes, log options and sequences of data sets up to the bound',
 'C19': 'all configurations x session stages x iterations; reports parsed and compared with the state',
 'C20': 'all small collections of runs of the bounded domain written to disk and loaded back',
 'C21': 'every crash point and torn write of every bounded save sequence, recovered in a fresh scratch directory',
 'C22': 'complete product of kernels, sizes and length scales from 1e-8 to 1e8',
 'C23': 'all point sets on small lattices up to the bound',
 'C24': 'the numerical optimiser is replaced by a nondeterministic environment; every sequence of its answers from a finite alphabet is explored against a reference model of the selection and of the re-scaling loop',
 'C25': 'every set of parts, placement and data of the bounded domain is drawn by the real code; the artists on the axes are compared with the arrays given',
 'C26': 'every setting of the bounded domain: the script is executed completely in a scratch directory and what it draws is compared with the definition',
 'C28': 'every argument in every storage, all ordered pairs of calls with arrays overwritten in between, all interleavings of two sessions; results compared with a session alone on plain arrays',
 'C27': 'every sequence of data sets and requests up to the bound on one object; hyperparameters, records and predictions against a reference session after every step',
}
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/mc/props/{i.lower()}.py'):
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                           evidence_file=f'evidence/{i}.json', level='model_checking',
                           technique='bounded exhaustive exploration of the real code in lockstep with a reference model',
                           level_note=NOTE[i] + '; exact within the stated bounds, floating-point comparison tolerances as stated in the evidence'))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, numba, smt"', checks=checks, not_applicable=na,
         notes='No hooks: the checks drive the public and documented methods of the package. check.sh <id> <tier> --replay FILE re-runs one reported case.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
