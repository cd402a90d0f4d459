"""Write MANIFEST.json from the claims in sa/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props

STAGE = 'gated value-flow analysis (closed forms of the source) compared with a reference model in normal form'
TECH = {}
NOTE = {}
DEFAULT_NOTE = ('Decided from the source on every run, for arbitrary inputs: equal normal forms are a proof within the modelled '
                'Python semantics; a violation names the construct and a valuation of the two forms on which they differ. '
                'Obligations neither equal nor told apart stay quiet and are listed in the evidence as not decided.')
NA = {
    'C29': 'Equality of generated transitions with the reference TZ compiler quantifies over the run of another program (zic) '
           'and over calendar arithmetic on every instant; no property of the shape of this source decides it.',
    'C30': 'The true maximum of simultaneously active transitions is the result of running the zone specifier of the separate '
           'acetime package (not part of this repository) on data; a static bound would only be an over-approximation.',
}
PENDING = 'The check for this property is still being built.'


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        ids = [json.loads(l)['id'] for l in f if l.strip()]
    checks, na = [], []
    for i in ids:
        if i in props.PROPS:
            checks.append({
                'property': i,
                'quick_cmd': 'python3 check.py %s' % i,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                'technique': props.TECH.get(i, STAGE) if hasattr(props, 'TECH') else STAGE,
                'level': 'other',
                'level_note': props.NOTE.get(i, DEFAULT_NOTE) if hasattr(props, 'NOTE') else DEFAULT_NOTE,
            })
        else:
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
    data = {'version': 1, 'setup_cmd': 'python3 -B check.py --self-check', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


main()
