#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of scenarios and the reasons below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TRUST = ('Assurance: the property held on every simulated run (seeded search, not enumeration). Trusted: the reference model and frozen grammar in '
         '/verif (sim/model.py, spec/grammar.json), the simulator (scheduling at bytecode boundaries of the library only: C code such as dict '
         'operations is atomic, as under the interpreter lock), and that asynchronous exceptions arrive where sim/core.py allows them. ')
NOTES = {
    'C01': 'Real rendering code in 2-4 simulated threads; expected text per request from the model.',
    'C02': 'Interrupt, timeout and allocation failure at any step of a call; retried result and every input object compared with the model.',
    'C03': 'First use of the shared number table raced and interrupted; its size is a knob (shipped size in a share of runs) because each entry is independent.',
    'C04': 'Replicas with different delivery orders, duplicates, interrupted additions, crashes and rebuilds; compared with each other and with the priority rules.',
    'C05': 'One or more loaders, several readers; interval oracle: every answer must be explained by a state between the additions finished before and begun by the end of the read.',
    'C06': 'The random source is a seam: all outcomes of the choice are enumerated per request where the library draws a bounded integer, sampled otherwise.',
    'C07': 'Concurrent registration; listing bounds per template and order of non-overlapping registrations.',
    'C08': 'Parsing histories with rejections and interruptions in one object, watched by renderings in other threads, against a fresh object and the model.',
    'C09': 'Concurrent, interrupted and repeated filling with observers; final forms from the model of nearest forms.',
    'C10': 'Queries of facts racing with queries, fills and renderings: a query during a fill may see either forms, every later one the forms there are.',
    'C11': 'Store with crash between any two steps of save, replace and restore; snapshot independence in both directions.',
    'C12': 'Simulated disk that damages bytes and records; outcome prescribed where the record is still well typed, otherwise soundness conditions only.',
    'C13': 'Worker pool over a record store with crashes and resumes; each result compared with frozen maps of the shipped steps (2,4,5,7,8,9).',
    'C14': 'Child interpreters whose hash seed, class hashes, import order and first-use order are drawn by the simulator; transcripts must be equal to each other and to the model.',
    'C15': 'Population of objects in several threads; all bystanders re-observed after every operation.',
    'C16': 'Nodes, clients, network and disks in one process; network, disk and replication protocol are harness code, library calls are real.',
    'C22': 'Population of equal, alike and different objects in sets and mappings while threads compare, query, render and fill them; answers from plain values.',
}
NA = {
    'C17': 'Numeral agreement is a pure function of its arguments: no schedule, clock, I/O or fault can change it, so simulation adds nothing over plain input testing. (Renderings in C01 compare with the same rules as a side effect.)',
    'C18': 'The choice of a preposition variant is a pure function of two words; nothing for a simulator to schedule or fail. (C10 decides the part that depends on history.)',
    'C19': 'The layout of forms is a fixed finite table computed at import; that is exhaustive enumeration of a pure function, not a matter of schedules or faults. (C14 decides that every process has the same table.)',
    'C20': 'Verbatim literals are a pure function of the template text; no schedule, fault or history enters. (C08 decides the part that depends on history.)',
    'C21': 'Uniqueness of short names is a static fact about constant tables; there is no execution to simulate.',
    'C23': 'Which error a malformed text or definition gets is a pure function of the input. (C08 and C12 decide what a rejection leaves behind.)',
}


def main():
    from sim import cli
    checks = []
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
    for p in props:
        pid = p['id']
        if pid in NA:
            continue
        assert pid in cli.SCENARIOS, pid
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py --property %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py --property %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'deterministic simulation with fault injection (seeded schedule and fault search, reference model)',
            'level': 'exploration',
            'level_note': NOTES[pid] + ' ' + TRUST,
        })
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
         'notes': 'No hooks in /repo: the simulator uses sys.monitoring on the unmodified library. Commits in /repo are repairs of genuine defects only '
                  '(known_findings.txt). VERIF_SEED selects the batch; a run is identified by property, seed and run number.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
