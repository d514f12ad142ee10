"""Writes /verif/MANIFEST.json."""
import json, os
PY = '/opt/venv/bin/python'
SIM = 'deterministic simulation with fault injection: '
N = {
 'C01': ('seeded thread schedules over the real library (switch at any Python instruction, lock or import), results against the same calls alone in fresh processes',
         'Seeded sampling of interleavings of 2 to 4 threads; a quiet run is evidence, not proof. Trusts the simulated scheduler (one thread runs at a time, switches at Python instructions, locks, imports and I/O as under the GIL).'),
 'C02': ('seeded histories of calls in one simulated process life, each outcome against a fresh process',
         'Seeded sampling of histories (related, repeated, failing and file calls, and whole-life restarts). Trusts that a fresh process is the specification of a call.'),
 'C03': ('seeded interruptions (KeyboardInterrupt, timeout, MemoryError) at chosen instructions of real calls, followed by later calls compared with fresh processes',
         'Seeded sampling of interruption points, biased to first executions of each instruction, to module bodies and to writes of shared state.'),
 'C04': ('seeded read faults, short reads and interrupted reads below the library\'s own data and module files, then recovery, against fresh processes',
         'Seeded sampling of fault positions. Faults are injected at the C library boundary of the real process; stat is not faulted.'),
 'C05': ('simulated resolver, TCP and HTTP service under the real requests/urllib3 stack in virtual time, with seeded network faults and concurrent clients',
         'Seeded sampling of network behaviours. TLS is not simulated: the service is reached over plain HTTP, as the library does.'),
 'C06': ('seeded histories, interleavings, interruptions and faults of calls sharing option lists, the lists compared after every step',
         'Seeded sampling; argument objects are inspected after each call, and default options by a later call without options.'),
 'C07': ('seeded interleavings, faults and interruptions with process-wide state photographed before, during and after each call',
         'Seeded sampling; the photograph covers the state listed in the property.'),
 'C08': ('newly started simulated processes with seeded environment, clock, locale, hash seed, flags, directory and import order, against the standard process',
         'Seeded sampling of configurations; locales are those installed here (C, POSIX, C.UTF-8).'),
 'C09': ('real file conversion on a scratch tree under seeded disk faults, crash points and schedules; the tree compared before and after',
         'Seeded sampling of documents, faults, crash points and interleavings; faults at the C library boundary.'),
 'C10': ('real file conversion under seeded disk faults, short and interrupted transfers; the output against a reference model of the document',
         'Seeded sampling; the reference model converts portion by portion with the direct text conversion in a fresh process.'),
 'C11': ('seeded failures, interruptions and crashes of real file conversions followed by repetition in the same or a new simulated process',
         'Seeded sampling of failure and crash points.'),
 'C12': ('seeded thread schedules over real file conversions, outputs against the same conversions alone',
         'Seeded sampling of interleavings of 2 to 3 threads.'),
 'C20': ('simulated processes that import the library for the first time under seeded interruptions, read faults and thread schedules, then import again and call, against an undisturbed process',
         'Seeded sampling of places of interruption, faults and interleavings; imports of third-party modules are not disturbed.'),
 'C21': ('simulated long lives: seeded kinds of calls repeated hundreds to thousands of times with ever different texts under seeded failures, interruptions, disk and network faults, with what the process holds measured along the way',
         'Seeded sampling of kinds of calls and faults; growth slower than one memory block in five calls, or 6 bytes per call, is not seen.'),
}
PURE = 'Pure function of its argument: no schedule, clock, I/O, fault or history enters it, so deterministic simulation has nothing to decide; what does depend on those (the same outcome in every process, history and interleaving) is claimed as C01, C02 and C08. '
NA = {
 'C13': PURE + 'Deciding it needs generated inputs against a round-trip oracle, a different technique.',
 'C14': PURE + 'Deciding it needs generated inputs against a round-trip oracle, a different technique.',
 'C15': PURE + 'Deciding it needs enumeration of the registry.',
 'C16': PURE + 'Deciding it needs generated texts per script.',
 'C17': PURE + 'Deciding it needs generated mixed texts.',
 'C18': PURE + 'Deciding it needs generated texts for every pair (and one source, PersianDMG, is known to fail; see DESIGN.md).',
 'C19': PURE + 'Deciding it needs generated names.',
}
m = {'version': 1,
     'setup_cmd': 'gcc -O2 -shared -fPIC -o /dev/null dst/simos.c -ldl && ' + PY + ' -c "import sys; sys.path.insert(0, \'dst\'); import runner"',
     'checks': [{'property': k, 'quick_cmd': '%s check.py %s' % (PY, k), 'thorough_cmd': 'env VERIF_TIER=thorough %s check.py %s' % (PY, k), 'evidence_file': 'evidence/%s.json' % k,
                 'technique': SIM + a, 'level': 'exploration', 'level_note': b} for k, (a, b) in N.items()],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: every seam sits outside it (LD_PRELOAD library for files, patched interpreter facilities for threads, clock, randomness and sockets, sys.monitoring for preemption). See DESIGN.md.'}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')
with open(p, 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
