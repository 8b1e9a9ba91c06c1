"""Stand-in for the ODIN text reader of odin-utils, which is not installed here:
a file holds one block per line, as JSON."""
import json


def odin_blocks(fh):
    for line in fh:
        if line.startswith('{'):
            yield json.loads(line)
