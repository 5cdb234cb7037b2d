"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC = 'TLA+ loader specification checked with TLC; all short documents over a lexeme set generated by TLC and replayed into the real loader, recorded real loads validated against the specification by TLC'
API = 'TLA+ API history machine checked with TLC; all short call histories generated by TLC and replayed, random histories of the real library validated by TLC'
INC = 'TLA+ loader and include-graph specification checked with TLC; all include graphs over a few files generated by TLC and replayed, recorded real loads validated by TLC'
T = {
 'C01': 'TLA+ loader specification: TLC shows every load ends; all short bracket documents, mutated and hostile documents replayed into the real loader on 2 MB stacks and validated by TLC',
 'C07': 'TLA+ type algebra: TLC checks the laws on all types up to a depth, and judges the complete relation tables computed by the real library',
 'C08': DOC + '; ' + API, 'C09': INC, 'C10': INC,
 'C11': DOC + '; written texts reloaded and judged by TLC', 'C12': DOC + '; displayed texts reloaded in three contexts and judged by TLC',
 'C13': DOC + '; ' + API, 'C15': API + '; equality matrices of loaded documents judged by TLC', 'C16': API, 'C23': API, 'C25': DOC + '; ' + API,
 'C14': 'TLA+ model of concurrent ID creation checked with TLC (and two faulty variants refuted); logs of real concurrent threads validated by TLC',
 'C19': 'TLA+ specification of names: every Unicode character in every position tried on the real library, tables judged by TLC; generated documents and API histories validated by TLC',
 'C22': 'TLA+ loader specification is a function of text and files: many loads in one process, and by concurrent threads, validated against it by TLC',
}
NOTE = 'Exhaustive over the generated documents, graphs, histories or tables named in the evidence; beyond those bounds, sampled. Trusts the TLA+ specification as the reading of the property, TLC, and the harness that encodes results (which only uses the public API).'
N = {
 'C01': 'The model always ends; the real loader ended on everything tried, with a 2 MB stack and limited memory. Three-level evidence: exhaustive short texts, mutated texts, hostile sizes. Two recorded findings (deep-drop, type-doubling) are tried again and reported as known.',
 'C14': 'The model is exhaustive for 3 threads; real schedules are whatever the machine produces (up to 64 threads, and 2^32 instances by one thread). Trusts AtomicUsize.',
 'C22': 'Schedules of concurrent loads are whatever the machine produces with 8 threads.',
}
def main():
    checks = []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)['id']
        checks.append(dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='VERIF_TIER=thorough ./check %s' % p, evidence_file='evidence/%s.json' % p,
                           technique=T.get(p, DOC), level='model_checking', level_note=N.get(p, '') + (' ' if p in N else '') + NOTE))
    m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'tools\'); import vlib; vlib.build()"', checks=checks, not_applicable=[],
             notes='The specification is in spec/ (TLA+, TLC). No hooks: the checks use the public API only. See DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
