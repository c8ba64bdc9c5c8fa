import json
T={
'C01':'model-based stateful property testing (rapid) of the LLRB map against a sorted-slice model',
'C02':'model-based stateful property testing (rapid) of the B+Tree against a sorted-slice model',
'C03':'model-based stateful property testing with generated paging/flush/eviction calls interleaved (metamorphic: map answers unaffected)',
'C04':'property testing: generated histories, re-open at every flushed location, compared with the model at that flush (round trip)',
'C05':'property testing with generated crash points at callback boundaries over a recording store; oracle: model at the recorded flush',
'C06':'property testing over a recording store; oracle: independent reachability walk of the stored image versus written-minus-discarded',
'C07':'fault-injection property testing: generated histories, every callback position of an operation failed in turn, plus random fault storms',
'C08':'mutation fuzzing of stored node bytes (truncate/extend/wrong counts) under generated histories, against the model',
'C09':'property testing: generated histories with Touch/TouchItem cycles, reachability of new and old versions compared',
'C10':'property testing: reports compared with an independent parse of the stored nodes and with the model',
'C11':'property testing of cache histories: population observed through stats and node reads, against accounting rules',
'C12':'generated concurrent programs under the race detector; linearizability decided per history (porcupine), ownership oracle for long runs, watchdog for deadlock',
'C13':'property testing: comparison counts per lookup and an independent structural walk of the stored tree',
'C14':'property testing: reads and writes recorded per operation, compared with path-length bounds from the independent walk',
'C15':'property testing: independent encoder and decoder of the documented format (generated images open; written nodes parse and re-encode identically)',
'C16':'property testing of comparators on generated pairs and triples against the natural order',
'C17':'model-based property testing with generated rejected keys (wrong type, nil, comparator error) in generated states',
'C18':'property testing: captured Dump output parsed and compared with the model; generated callback failures during Dump',
'C19':'model-based property testing of several trees on one cache and store, with generated faults and discards',
}
N={
'C07':'Every callback position of the chosen operation in each generated case is failed in turn (complete per case); histories are sampled.',
'C12':'Sampled schedules of the Go scheduler with the race detector; small histories get a complete linearizability decision.',
}
base='Sampled exploration: thousands of generated, shrinkable cases per run against an explicit oracle; no proof of absence. Trusts the harness model, its independent node-format parser and the Go toolchain.'
checks=[]
for i in range(1,20):
    p='C%02d'%i
    checks.append({'property':p,'quick_cmd':f'./check.sh {p} quick','thorough_cmd':f'./check.sh {p} thorough','technique':T[p],
      'level':'fault_enumeration' if p=='C07' else 'exploration','level_note':(N.get(p,'')+' '+base).strip()})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':[],
 'notes':'No hooks in /repo: the harness is a separate Go module in /verif/harness that imports the package from /repo through a replace directive and uses only its public API. ./check.sh replay FILE re-runs one replay file.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
