#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': ('online monitor of the parser\'s term stream against a reference interpreter', 'Every generated document is parsed by the real code while a recorder between parser and document observes the terms; an independent interpreter decides.'),
 'C02': ('monitor of cell names, value names and headings against a reference interpreter', 'As C01, observing names and headings.'),
 'C03': ('monitor of parent/child links against a reference interpreter', 'As C01, observing nesting, links and rejected parents.'),
 'C04': ('monitor of section membership after each load against a reference interpreter', 'As C01, observing sections over several loads into one document.'),
 'C05': ('runtime round-trip oracle over parsed and edited documents (CSV)', 'Renders, re-reads and compares real documents.'),
 'C06': ('runtime round-trip oracle over parsed and edited documents (Lines, conversion chains)', 'Renders, re-reads and compares real documents.'),
 'C07': ('runtime oracle: dictionaries against an independent conversion', 'Dictionaries of documents, sections and terms are compared with an independent conversion of the tree that the reference interpreter gives.'),
 'C08': ('monitor of declared attributes against a reference interpreter', 'Declaration documents are loaded by every route and the terms that result are compared with the interpreter\'s.'),
 'C09': ('monitor of include expansion under file faults (missing, cyclic), with a progress watchdog', 'Include graphs are written to scratch files and read by the real code under a CPU-time limit.'),
 'C10': ('runtime oracle: searches against an exhaustive scan, repeated under other hash seeds', 'Queries on real documents are compared with a scan of the observed structure.'),
 'C11': ('state monitor after every operation of random edit histories, against a mirror', 'The full structure is observed after each edit and compared with a mirror of the edits.'),
 'C12': ('history monitor of property reads and writes through every accessor', 'Every write is followed by reads through all accessors, compared with a mirror.'),
 'C13': ('state snapshots around every read-only call, answers compared with fresh copies', 'Snapshots with object identities before and after each call.'),
 'C14': ('runtime oracle for the name over update histories', 'Names are compared with an independent implementation of the rule.'),
 'C15': ('runtime oracle for version requests over histories', 'Answers are compared with an independent implementation; state is snapshotted.'),
 'C16': ('file-system monitor of saves, with injected faults', 'Directory contents and bytes are compared before and after each save, also with failures injected while rendering, encoding and opening.'),
 'C17': ('process monitor of the command line tool: output, exit status and directory state', 'The real command is run on scratch folders and compared with the library.'),
 'C18': ('differential monitor: interleaved and threaded runs against isolated runs', 'Operations on several documents are interleaved (in one thread with generators suspended, and in threads with short switch intervals) and compared with isolated processes.'),
 'C19': ('type monitor over registration histories', 'Types of parsed and created terms after each registration are compared with a model of the registry.'),
 'C20': ('runtime oracle: rows of the Lines reader against an independent reader, over all input routes', 'Rows and documents are compared with an independent reader.'),
 'C21': ('runtime oracle: data packages against an independent conversion', 'The dictionary is compared with one computed from the generated description.'),
 'C22': ('monitor of positions and errors against a reference interpreter, with malformed rows injected at every kind of place', 'Positions of all terms and types of errors are compared with the interpreter\'s.'),
 'C23': ('runtime oracle: url parts and documents against the layout that was created', 'Packages are created in scratch folders and opened through every spelling.'),
 'C24': ('state monitor after every heading edit and clean-up, against an independent statement of the edit', 'Full snapshots before and after each edit are compared.'),
 'C25': ('audit-hook monitor of file, process and network events, with descriptor, output and process-state comparison', 'sys.addaudithook observes what the real code does while it reads, edits, renders and saves documents in scratch folders.'),
 'C26': ('resource monitor: live objects, descriptors, threads and memory blocks over rounds of documents', 'The same work is done on ever more fresh documents in one process; what it still holds after each round is compared.'),
 'C27': ('state monitor of names and listings against an independent statement', 'Names, name tests and listings of parsed and edited documents are compared with those that follow from the observed nesting.'),
 'C28': ('differential monitor over processes with other hash seeds, locales, encodings, folders and optimisation', 'Fresh interpreters read the same text and their full observations are compared.'),
 'C29': ('file-system monitor: path, directory and modification time against the files that were made', 'Files are made in scratch folders, opened through every spelling and compared with what the file system says.'),
 'C30': ('differential monitor: documents served over loopback HTTP against the same files in a folder, and the log of requests', 'A server on the loopback network serves generated files, with refusals; documents, errors, requests and command output are compared with those of the folder.'),
}
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(root, 'vmon', 'checks', i.lower() + '.py')):
        t, n = TECH.get(i, ('runtime monitoring', ''))
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=t, level='fault_enumeration' if i in () else 'exploration',
                           level_note=n + ' Explores generated executions (counts in the evidence file), not all of them; trusts the oracle code in vmon/.'))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='python3 -c "import sys"', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the monitors observe through the public interface and wrap calls from the harness.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
