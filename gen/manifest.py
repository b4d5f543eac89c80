#!/usr/bin/env python3
# Writes MANIFEST.json from the table below (kept in step with sim/props.cpp).
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
src = open(root + '/sim/props.cpp').read()
claimed = re.findall(r'^\s*\{ "(C\d\d)"', src, re.M)
NA = {
 'C90': 'SDP text generation and parsing is a pure function of its input: no concurrency, time, I/O or fault for a simulator to decide; input generation over a pure function is another technique.',
 'C91': 'Byte-level (de)serialisation of RTP, RTCP, STUN and SCTP packets is a pure function of its input; only its consequences in a running system are simulated (C01, C10, C18).',
 'C92': 'Parsing of codec bit streams (resolution, key-frame detection) is a pure function of its input; only its consequences in a running system are simulated.',
}
NOTE = 'Seeded search over schedules, network and fault sequences of the complete library (both peers, all threads, OpenSSL) under the simulator; a violation comes with a minimised, exactly repeatable replay file. Not exhaustive: what the seeds do not reach is not excluded. Trusts the socket, clock and thread models in sim/, sequentially consistent memory, and OpenSSL.'
extra = {
 'C18': ' Built with AddressSanitizer and UBSan so that memory errors show.',
 'C22': ' Built with data-race instrumentation checked against the simulated happens-before relation; interleavings are sequentially consistent, so further weak-memory effects are outside.',
 'C07': ' Built with AddressSanitizer.',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'deterministic simulation with fault injection (seeded schedule and fault search)',
            'level': 'exploration', 'level_note': NOTE + extra.get(i, '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not claimed yet: its simulation scenario is still being built.')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is a linker-level wrapper (-Wl,--wrap) around libc/libstdc++ calls, see DESIGN.md. The commits in /repo are fixes only, listed in known_findings.txt.'}
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not applicable')
