#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 'C01': ('crash, abort and hang monitor (panic hook, exit status, CPU watchdog, 2 MiB stack, overflow checks) over hostile and damaged inputs, both builds; Miri for a 32-bit target and AddressSanitizer on samples',
         'No panic, abort, stack exhaustion or hang was observed for any input run, in debug builds of both feature sets; inputs not run are not covered.'),
 'C02': ('counting global allocator as online monitor of peak, largest request and leaked bytes per parse',
         'Exact accounting of every heap request of the parsing thread for every input run; the bound is 48 MiB plus 1024 bytes per input byte.'),
 'C03': ('differential monitor against an independent reference parser over generated classes and JDK classes', 'Complete comparison of everything reported for each class run; trusts the reference model.'),
 'C04': ('differential monitor against an independent reference parser, every attribute kind at every place', 'Complete comparison of every attribute of each class run; trusts the reference model.'),
 'C05': ('differential monitor against an independent reference parser over annotation structures and all codes', 'All 256 codes of each kind are tried exhaustively in some place, structures are sampled; trusts the reference model.'),
 'C06': ('differential monitor against an independent decoder; every opcode with boundary and random operands', 'All 256 opcodes and wide forms exhaustively, operands sampled at boundaries and at random; trusts the reference model.'),
 'C07': ('trace monitor of decoded instructions (branch targets, offsets, lookup) plus differential verdicts', 'Every branch and every lookup offset of every code array run is checked; code arrays are sampled.'),
 'C08': ('differential and repeat monitor of constant-pool iteration', 'Every item of every pool run is compared, twice; pools are sampled; trusts the reference model.'),
 'C09': ('fault injection at every reference site with a differential verdict oracle', 'Every site kind with every kind of referent at least once per run; trusts the reference model.'),
 'C10': ('fault injection in constant-pool entries with a differential verdict oracle', 'All tags and versions and reference kinds exhaustively, content sampled; trusts the reference model.'),
 'C11': ('differential monitor over numbers and placements of dynamic constants and bootstrap tables', 'Counts and indexes around the table size swept, contents sampled; trusts the reference model.'),
 'C12': ('truncation, extension and length faults with a must-refuse oracle', 'Every prefix of small classes, sampled prefixes of larger ones, every length mark perturbed; trusts the reference model.'),
 'C13': ('fault injection of duplicates, initializers and module headers with a differential verdict oracle', 'All header combinations of modules and initializer rules swept, positions of duplicates sampled; trusts the reference model.'),
 'C14': ('grammar oracle over generated and damaged descriptor texts at every place one is parsed', 'Short texts over the significant alphabet exhaustively, longer ones sampled; trusts the reference grammar.'),
 'C15': ('differential text decoding and borrow (address range) monitor', 'Every string reported is compared and located; byte contents up to two bytes exhaustively, longer ones sampled; trusts the reference decoder.'),
 'C16': ('paired-execution monitor: decoding on, off and default', 'Complete comparison of the paired results for each input run.'),
 'C17': ('paired builds plus multi-threaded stress with per-thread result monitors; Miri with seeded schedules and ThreadSanitizer', 'Schedules are those the machine produced; paired results complete for each input run; sendability decided by the compiler.'),
 'C18': ('repeat-execution monitor over placements, histories, threads and processes; guard pages; Miri for a big-endian target and AddressSanitizer on samples', 'Complete comparison (contents, debug text, error) of repeated parses for each input run.'),
 'C19': ('exhaustive flag-word sweep with a differential oracle', 'All 65536 words at each of the places are tried in each run; trusts the reference model.'),
 'C20': ('bit-exactness monitor of literals at all places', 'Boundary and single-bit patterns exhaustively, others sampled; trusts the reference model.'),
 'C21': ('single-fault injection with a location oracle on the displayed error', 'The indexes demanded are those the reference says enclose the fault; trusts the reference model.'),
}
checks = [dict(property=p, quick_cmd=f'./check.sh {p}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {p}', technique=t, level='exploration', level_note=n) for p, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the public API suffices. Replay an input: ./check.sh replay Cxx FILE.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
