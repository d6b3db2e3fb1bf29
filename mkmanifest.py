#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.abspath(__file__)); props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
note = {
 'C01': 'Per-key linearizability of every recorded history against an insert-once map.',
 'C02': 'Power loss and kill at random points; every acknowledged close or flush is compared with what a reopened store holds.',
 'C03': 'Crash at random mutating calls, steps and times; recovered contents must be a prefix in insert order that includes everything acknowledged.',
 'C04': 'Recovery interrupted, failed and repeated; result compared with one uninterrupted recovery of a copy of the disk.',
 'C05': 'Write, sync, truncate errors, torn writes and full disk in commits; errors must surface, persist and leave a recoverable store.',
 'C06': 'EINTR and short transfers at random rates; half of the runs are compared byte for byte with an undisturbed twin run.',
 'C07': 'Read errors and unexpected end of file during client calls; the error must surface and nothing else may change.',
 'C08': 'Power loss at a random simulated time; values inserted earlier than the bound before it must survive.',
 'C09': 'Writes and syncs stalled for seconds; latency of client calls in simulated time is bounded.',
 'C10': 'Open, close, context start/stop/run from several threads; deadlock, livelock, leftover threads and early return are detected.',
 'C11': 'Happens-before race detector, heap checker and assertions over the mixed workloads of all other properties.',
 'C12': 'Rekey with crash, faults and retries; contents, untouched data and restartability are checked.',
 'C13': 'Visit output compared with the model, including oversized values, callback errors, read faults and damaged files.',
 'C14': 'Both verify algorithms compared with an independent decoder on sound files; single damages must be reported.',
 'C15': 'Every write and truncate of the data file is monitored during mixed, crashing, failing and rekeying histories.',
 'C16': 'Create with existing files, invalid parameters, disk faults and crashes.',
 'C17': 'Header damage, foreign files and logs, truncations, wrong hasher; all files must stay byte-identical on refusal.',
 'C18': 'Independent decoder of the documented format after every close and recovery; stores written by an independent encoder are used as input.',
 'C19': 'Descriptors, heap blocks, threads and log files after every life cycle, including failed ones.',
 'C20': 'Allocation failures inside every API call and in the background commit.',
 'C21': 'Several stores on one context, faults in one; the others keep all guarantees.',
 'C22': 'Slow and stalled disks with small burst sizes; early, missing and long throttling delays are detected in simulated time.',
 'C23': 'Every progress report of every rekey, visit and verify call is checked against the ones before it.',
 'C24': 'The real main of the tool runs inside the simulator on healthy, damaged and interrupted databases; exit status, output, files and threads are checked.'}
checks = []
for p in props:
    i = p['id']
    checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, disk faults and crashes of the real library in one process; replayable minimised plans',
        'level': 'exploration', 'level_note': note[i] + ' Finds violations, does not prove their absence; trusts the simulated file system and thread semantics and the oracles in sim/.'})
m = {'version': 1, 'setup_cmd': 'bash sim/build.sh build /repo', 'checks': checks, 'not_applicable': [],
     'notes': 'No hook commits: all seams already exist (File and Hasher template parameters are left at their defaults; POSIX, pthread, clock and allocation calls are interposed at link time). Commits in /repo are fix: commits only. thorough runs take 40 minutes each (SIM_SECONDS overrides). ./replay FILE replays a violation.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1); open(here + '/MANIFEST.json', 'a').write('\n')
