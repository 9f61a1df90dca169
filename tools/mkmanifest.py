"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Seeded search over schedules and faults, not exhaustive: a violation found is real (it replays exactly from its '
        'file); silence means none was found in the runs the evidence counts. kajiki, expat and the file contents are '
        'real; thread switches, locks, clock, randomness and I/O errors are the simulator\'s. Trusted: the simulator, the '
        'reference interpreter of templates in sim/gen.py, switches only at lines/bytecodes of kajiki and template code, '
        'at I/O, locks and callbacks. ')
SPECIFIC = {
 'C01': 'Oracle: every finished render has the text the reference interpreter derives from its own evaluations.',
 'C02': 'Oracle: reference interpreter for well-formed sources, a pristine forked process for malformed and mutilated ones.',
 'C03': 'Oracle: one expected text per page and context, from the reference interpreter; caller mappings watched for changes.',
 'C04': 'Oracle: identity of the exception, prefix of the undisturbed text, no evaluation after the failing one.',
 'C05': 'Oracle: history of file versions with times; the import returns a version on disk between its start and end.',
 'C06': 'Oracle: identity of classes and count of module-level executions per file version.',
 'C07': 'Oracle: faults at every system call and line of a load, then imports at rest must return what is on disk.',
 'C08': 'Oracle: no exception while all files are well-formed; deadlock detection and a bound on steps.',
 'C09': 'Oracle: every file opened through the seam is closed when the call ends, checked without garbage collection.',
 'C10': 'Oracle: first directory holding the file at some moment of the import.',
 'C11': 'Oracle: version marks of every part in the rendered text against the history of the files.',
 'C12': 'Oracle: letter-shifting translators; each part of the text shows which translator made it.',
 'C13': 'Oracle: lines recorded while the generated source was written.',
 'C14': 'Oracle: the log of evaluations must be the sequence the reference interpreter prescribes.',
 'C15': 'Oracle: expat parses the output; decoded events equal those of the reference interpreter.',
 'C16': 'Oracle: reference interpreter and recorded lines, for every cutting of reads and parser buffers.',
 'C17': 'Oracle: the reference interpreter gives the length of text before every evaluation; compared with what had been delivered when it happened.',
 'C18': 'Oracle: weak references, after everything else was let go of and collected. PyPy itself keeps the globals a function first ran with: a render before the observed ones absorbs that.',
}
PURE = ('No schedule, fault, time, I/O or history can influence it: it is a pure function of one template source (and '
        'options), so a simulator has nothing to decide. ')
NA = {
 'C30': PURE + 'Braced expressions occur in all generated templates, but where they end is grammar, not behaviour over time.',
 'C31': PURE + 'Generated templates use documents types and modes, but the choice of mode is made once from the source.',
 'C32': PURE + 'Message extraction reads one source and returns a list.',
 'C33': PURE + 'Entities and CDATA occur in generated templates for C02, C14, C15 and C16.',
 'C34': PURE + 'Chains, overrides and parent_block occur in the generated templates of C01, C11 and C14; name resolution itself is static.',
 'C35': PURE + 'White space handling of text directives is lexical.',
}
m = {
 'version': 1,
 'setup_cmd': 'true',
 'checks': [{
   'property': p, 'quick_cmd': './check.sh %s --tier quick' % p, 'thorough_cmd': './check.sh %s --tier thorough' % p,
   'evidence_file': 'evidence/%s.json' % p,
   'technique': 'deterministic simulation with fault injection (seeded schedules and faults, reference model, replay files)',
   'level': 'exploration', 'level_note': NOTE + SPECIFIC[p]} for p in sorted(SPECIFIC)],
 'not_applicable': [{'property': p, 'reason': NA[p]} for p in sorted(NA)],
 'notes': 'No hooks in /repo: every seam is the language\'s own (sys.settrace, threading, open/os, time, random, the SAX '
          'reader) and is installed by the simulator in its own process. Commits in /repo are repairs only (known_findings.json).',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
