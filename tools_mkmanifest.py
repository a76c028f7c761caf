import json
# property -> (level, note)
C = {}
def c(id, note, level='proof', tech='contract-based deductive verification of the Go source (extracted to Verus/Z3), failing obligations replayed on the real code'):
    C[id] = (level, note, tech)
exec(open('manifest_notes.py').read())
NA = {}
exec(open('manifest_na.py').read())
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'checks': [], 'not_applicable': []}
for p in props:
    if p in C:
        l, n, t = C[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'contracts not written yet')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
