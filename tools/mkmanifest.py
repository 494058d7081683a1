"""Writes MANIFEST.json from the registered checks."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props, explain
NA = {
 'C28': 'Optimality of the checkpoint positions is a minimum over all schedules of a total of forward steps: it quantifies over numeric values of a search (floating-point estimate, binomial tables) that no static argument in reach bounds.',
 'C29': 'Termination within bounds and absence of overflow depend on numeric values of binomial coefficients and a floating-point starting estimate; a sound static bound for every machine-addressable size is out of reach.',
 'C30': 'Rounding error is a property of floating-point values at run time; the analysis works over the real numbers.',
}
checks = []
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = []
for p in ids:
    if p in props.PROPS:
        checks.append({'property': p, 'quick_cmd': 'python3 engine/check.py %s quick' % p, 'thorough_cmd': 'python3 engine/check.py %s thorough' % p,
                       'technique': 'static analysis: ' + explain.TECH[p], 'level': 'other',
                       'level_note': 'Static analysis of the current source; ' + explain.TEXT[p] + ' Bound: ' + explain.NOTE[p] + '.'})
    else: na.append({'property': p, 'reason': NA.get(p, 'The static check for this property is not finished; it is not claimed.')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
