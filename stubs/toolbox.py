"""Stand-in for the Toolbox reader, which is not installed here, with the
functions the importer uses: columns align tokens, as in Toolbox files."""
import re
import warnings
from collections import OrderedDict


class ToolboxError(Exception):
    pass


class ToolboxWarning(Warning):
    pass


def read_toolbox_file(lines):
    """(marker, text or None) pairs; other lines continue the text."""
    mkr, text = None, None
    for line in lines:
        m = re.match(r'(\\\S+)(?:\s(.*))?$', line, re.S)
        if m:
            if mkr is not None:
                yield mkr, text
            mkr, text = m.group(1), m.group(2)
            if text is not None and not text.strip():
                text = None
        elif line.strip() and mkr is not None:
            text = line if text is None else text + '\n' + line
    if mkr is not None:
        yield mkr, text


def records(pairs, record_markers):
    """(context, data) for what follows each record marker"""
    context = OrderedDict((m, None) for m in record_markers)
    data, any_ = [], False
    for mkr, text in pairs:
        if mkr in record_markers:
            if any_:
                yield OrderedDict(context), iter(data)
            data, any_ = [], True
            for m in record_markers[record_markers.index(mkr):]:
                context[m] = None
            context[mkr] = text.strip() if text else None
        else:
            any_ = True
            data.append((mkr, text))
    if any_:
        yield OrderedDict(context), iter(data)


def normalize_record(data, aligned, strip=True):
    """One pair for each marker; the lines of wrapped aligned markers are padded
    so that their columns stay aligned."""
    order = []
    values = {}
    for mkr, text in data:
        if mkr not in values:
            order.append(mkr)
            values[mkr] = []
        values[mkr].append(text)
    widths = []
    for mkr in order:
        if mkr in aligned:
            for k, text in enumerate(values[mkr]):
                if k == len(widths):
                    widths.append(0)
                widths[k] = max(widths[k], len(text or ''))
    out = []
    for mkr in order:
        v = values[mkr]
        if all(t is None for t in v):
            out.append((mkr, None))
        elif mkr in aligned:
            s = ' '.join((t or '').ljust(w) for t, w in zip(v, widths))
            out.append((mkr, s.strip() if strip else s))
        else:
            out.append((mkr, ' '.join(t.strip() for t in v if t)))
    return out


def align_fields(pairs, alignments, errors='strict'):
    """(marker, [(token above, [tokens])])"""
    sources = set(alignments) | set(alignments.values())
    spans = {}
    for mkr, text in pairs:
        if text is None:
            yield mkr, [(None, None)]
            continue
        if mkr not in sources:
            yield mkr, [(None, [text])]
            continue
        toks = [(m.start(), m.group()) for m in re.finditer(r'\S+', text)]
        spans[mkr] = toks
        above = spans.get(alignments.get(mkr))
        if above is None:
            yield mkr, [(text, [t for _, t in toks])]
            continue
        if toks and (not above or toks[0][0] < above[0][0]):
            raise ToolboxError('misaligned: ' + text)
        groups = []
        for k, (a, tok) in enumerate(above):
            b = above[k + 1][0] if k + 1 < len(above) else float('inf')
            groups.append((tok, [t for c, t in toks if a <= c < b]))
        if any(len(g) > 3 for _, g in groups):
            warnings.warn('many tokens under one', ToolboxWarning)
        yield mkr, groups
