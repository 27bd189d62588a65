#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json; a property is claimed once it has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ('Exploration, no proof: random choice-sequence generation plus libFuzzer over the same choices, ASan+UBSan on the code of /repo; '
          'failures are shrunk and confirmed by repeated replay. ')
T = {
'C01': ('record/replay round-trip over generated measurement scripts', 'Trusts the rule of the relative tolerance only for exactly equal values.'),
'C02': ('differential against a reference comparison model over generated script/baseline pairs', 'Pairs within rounding of the tolerance boundary are not judged one by one, only bounded.'),
'C03': ('model-based testing of the verdict over generated runs with injected failures', 'Main is called once per test object.'),
'C04': ('property-based testing against a 128-bit reference of the tolerance relation', 'Pairs within rounding of the boundary are counted, not judged.'),
'C05': ('round-trip against independent printing and parsing of the numbers', 'glibc printf/strtod are trusted.'),
'C06': ('round-trip through two independent XML readers', 'expat and an own strict reader are trusted; file and standard output documents are compared without the dated comment.'),
'C07': ('metamorphic: equivalent re-spellings of a generated baseline', 'The spellings cover what XML allows to vary in these documents.'),
'C08': ('fuzzing of baseline bytes with an independent XML reader as oracle', 'expat decides well-formedness.'),
'C09': ('differential against a reference base64 encoder', ''),
'C10': ('differential against a reference base64 decoder and validity predicate', 'Backspace, which the code counts as white space, is not generated.'),
'C11': ('stateful model-based testing of measurement objects', 'Invalid or blank base64 texts are left out.'),
'C12': ('validity oracle: the printed edit script is applied to the first text', 'Texts without NUL bytes.'),
'C13': ('differential against a dynamic-programming longest common subsequence', 'Texts without NUL bytes.'),
'C14': ('report read back by an independent XML reader and compared with the reference model', ''),
'C15': ('model-based testing over generated directory trees, search paths and file contents', ''),
'C16': ('differential against an independent reading of generated argument lists', '-R values are decimal integers.'),
'C17': ('algebraic laws and file identity over generated paths and trees', ''),
'C18': ('differential against a reference search over generated trees', ''),
'C19': ('stateful testing against direct system calls', 'The cases run as an unprivileged user.'),
'C20': ('property-based testing over generated commands, output schedules and endings', 'The verdict over real pipes is sampled; the schedule of the kernel is not controlled beyond the delays and sizes of the writes.'),
'C21': ('differential against a brute-force filter over generated images', 'ITK itself is trusted and not instrumented.'),
'C22': ('model-based testing over generated image files and tolerances', 'ITK image readers and writers are trusted.'),
'C23': ('round-trip and counted perturbation of generated composite values', ''),
'C24': ('metamorphic and reference-format testing of generated file names', ''),
'C25': ('fault injection at generated byte positions while recording', 'Write failures are injected with the file size limit, a full device and a failing stream buffer.'),
'C26': ('algebraic laws (symmetry, transitivity, reference decision) over generated measurements and visitors', ''),
'C27': ('model-based testing of the tool over generated argument lists and images', 'ITK image readers and writers are trusted.'),
'C28': ('model-based testing of call results over generated measurement sequences', ''),
'C29': ('stateful testing of histories of runs against fresh objects', 'The creation comment (host and time) is left out.'),
'C30': ('report and pictures read back and compared with a brute-force difference', 'ITK image readers and writers are trusted.'),
'C31': ('stateful model-based testing over histories of watchers and events', ''),
'C32': ('crash-point testing: runs stopped at generated points in child processes', 'What the kernel holds is taken as written.'),
'C33': ('stateful testing of settings and baseline lookup against a reference lookup', ''),
'C34': ('model-based testing with generated decision rules as visitors', 'The visitors do not throw.'),
'C35': ('round-trip through an independent XML reader and through the framework', ''),
'C36': ('round-trip and differential testing over generated images in memory', 'ITK image readers and writers are trusted; images of several components are only required to replay clean.'),
'C37': ('metamorphic: the same generated run under other locales and stream settings, compared with the classic one', 'Image files are written as NRRD because MetaIO reads and writes by the locale itself.'),
'C38': ('generated schedules of concurrent runs against the same runs alone, under the thread sanitizer', 'The thread sanitizer replaces the address sanitizer here; expat and the C++ library are not instrumented.'),
'C39': ('fault injection at generated points of generated runs, compared with the run without the fault', 'Path queries and the inner memory of expat do not fail.'),
}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in props:
    if os.path.exists('%s/props/%s.cpp' % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd='python3 run.py check %s quick' % i, thorough_cmd='python3 run.py check %s thorough' % i,
                           technique=T[i][0], level='exploration', level_note=(COMMON + T[i][1]).strip()))
    else:
        na.append(dict(property=i, reason='not built yet'))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed. python3 run.py replay FILE re-runs a replay file. known_findings.txt lists the repaired defects.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
