"""write properties.jsonl and MANIFEST.json from the catalogue and the registered checks"""
import json
import os
from . import checks, props, core

GENERAL = ('Sound for every input and state of the analysed instantiations, under the trusted base: the clang 18 front end and its early '
           'simplification passes, libisl, and the analyser in /verif/vf. ')


def main():
    checks.load_all()
    R = core.ROOT
    with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
        for k in sorted(props.P):
            p = props.P[k]
            assert len(p['title']) <= 80, (k, len(p['title']))
            f.write(json.dumps(p) + '\n')
    cs = []
    na = []
    for k in sorted(props.P):
        e = core.REGISTRY.get(k)
        if e:
            cs.append(dict(property=k, quick_cmd='python3 -m vf check %s' % k,
                           thorough_cmd='VERIF_TIER=thorough python3 -m vf check %s' % k,
                           evidence_file='evidence/%s.json' % k, technique=e['technique'], level=e['level'],
                           level_note=GENERAL + e['note']))
        else:
            na.append(dict(property=k, reason=props.NA.get(k, 'not claimed: the check is not finished')))
    m = dict(version=1, setup_cmd='python3 -m vf setup', checks=cs, not_applicable=na,
             notes='Static analysis only: every check compiles instantiations of the library to LLVM IR from /repo\'s current tree and analyses '
                   'them by abstract interpretation, dataflow, effect rules or compile-time witnesses; nothing of the library is executed.')
    with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print('%d checks, %d not claimed' % (len(cs), len(na)))
    return 0
