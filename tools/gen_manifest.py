#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
diffm = 'online monitor of real executions against an independent model (generated, mutated and hostile documents)'
race = 'Go race detector plus result monitor on concurrent workloads'
hist = 'history monitor: random operation histories against a naive model'
tech = {}
for i in range(1, 17): tech['E%02d' % i] = diffm
tech['E02'] = 'fault-injecting readers; monitor of returned documents and errors'
tech['E07'] = 'metamorphic monitor: one document in two layouts, trees compared'
tech['E12'] = 'reflective monitor of the whole tree after parsing'
tech['E13'] = 'reflective monitor: structural comparison, storage intersection, overwriting of one copy'
tech['E14'] = 'round-trip monitor: formatted text parsed again, trees compared'
tech['E15'] = 'round-trip and metamorphic monitor of the formatted text'
tech['E16'] = 'monitor of complete state images around every observer call'
tech['E17'] = race
tech['E18'] = 'round-trip monitor: JSON form decoded again, trees and contents compared'
tech['E22'] = 'reflective monitor of random hand-built nodes: images, storage, children, parents, JSON round trip'
tech['E20'] = 'runtime oracle: formatted text compared with that of an independent printer written from the layout rules'
tech['E21'] = 'runtime oracle: formatted parts read again in their place and compared with the node'
tech['E19'] = 'reflective monitor of documents edited at random: parents, round trip, independence of positions'
for i in range(1, 9): tech['D%02d' % i] = hist
tech['D06'] = 'monitor of delivered sequences against breadth-first distances'
tech['D07'] = 'Go race detector, goroutine-leak monitor and stop-protocol monitor under random schedules'
tech['D09'] = 'monitor of random set operations against bit-set models'
tech['D10'] = race
tech['E23'] = 'monitor of processor time at two sizes of one text'
tech['D11'] = 'monitor of processor time of every operation, answers against the set model'
base = 'The property held on every execution of this run, with the counts in the evidence file; nothing is claimed about executions that were not run. '
note = {
 'E': base + 'Trusted: the generator, renderer, reference reader and projection in harness/, the Go toolchain.',
 'D': base + 'Trusted: the naive set model in harness/dagmodel.go, the Go toolchain.',
}
extra = {
 'E09': ' Judged against the reference reader within 50 tokens of lookahead; texts of the recorded finding are not judged.',
 'E14': ' Documents of the recorded heredoc finding are not judged beyond the recorded input.',
 'E15': ' Documents of the recorded heredoc finding are not judged.',
 'E23': ' Texts of the recorded finding (rejected and nested) are not judged. Limits are generous: ten seconds and a growth of about n to the 3.5.',
 'D11': ' The limit is five seconds of processor time for operations that take milliseconds.',
 'E17': ' The race detector sees the races of the schedules that occur; it has no false reports.',
 'D07': ' Schedules are varied by GOMAXPROCS, yields, pauses and competing goroutines, not enumerated.',
 'D10': ' The race detector sees the races of the schedules that occur; it has no false reports.',
}
checks = []
for p in props:
    i = p['id']
    checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick bash run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + i,
      'technique': tech[i], 'level': 'exploration', 'level_note': note[i[0]] + extra.get(i, '')})
HOOK = '8089ba6bbfb9ec48ed3955aa9c4ee7240c5094ed'
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
     'hooks': {'guard': 'verif (Go build tag)', 'enable': 'go build -tags verif (run.sh; without it the checks do the same with fewer texts)', 'source_commits': [HOOK]},
     'notes': 'Everything is observed through the exported API; the hook only saves building a parser for each text. Each check builds harness/ against /repo. run.sh PROPERTY --replay FILE runs a violation again.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
