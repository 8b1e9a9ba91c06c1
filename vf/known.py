"""Known findings: genuine defects that are recorded, not repaired.

/verif/known_findings.json holds "findings", a list of entries
  {"status": "known", "property": "C..", "match": "<text>", "what": "..."}
A violation is a known one only if it is of that property and its message
contains the entry's (specific) match text. The "fixed" lines document repaired defects; they suppress nothing.
"""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'known_findings.json')


def entries(pid):
    try:
        with open(PATH) as f:
            return [e for e in json.load(f)['findings']
                    if e['property'] == pid and e['status'] == 'known']
    except FileNotFoundError:
        return []


def split(pid, violations):
    es = entries(pid)
    unlisted, listed = [], []
    for v in violations:
        hit = next((e for e in es if e['match'] in v['message']), None)
        (listed if hit else unlisted).append(v)
    return unlisted, listed


def report(pid, listed):
    for e in entries(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
