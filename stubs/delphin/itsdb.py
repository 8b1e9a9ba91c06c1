"""Stand-in for pyDelphin, which is not installed here: records the rows that a
skeleton is made of, and the order in which they are asked for."""
import json
import os

calls = []


def make_skeleton(path, relations, item_rows, gzip=False):
    call = {'path': path, 'relations': relations, 'rows': []}
    calls.append(call)
    with open(relations) as f:
        f.read()
    if not os.path.isdir(path):
        os.makedirs(path)
    with open(os.path.join(path, 'item'), 'w', encoding='utf-8') as f:
        for row in item_rows:
            call['rows'].append(dict(row))
            f.write(json.dumps(dict(row), default=str) + '\n')
