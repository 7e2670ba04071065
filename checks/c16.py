import itertools
import json
import os
import pathlib
import re
import stat
import xml.parsers.expat

from lib import core

import numpy as np

PROPERTY = 'C16'
RULE = ('for valid files of every format and both kinds of model: every truncation, every deletion, replacement and insertion of one byte over an alphabet, every deletion, duplication, '
        'replacement over a catalogue and exchange of tokens, every deletion, duplication and exchange of lines, every addition, removal, exchange and permutation of fields (cells and columns, keys, attributes, words); and files of other kinds; non-trivial: the file is no longer valid')
ASSUMPTIONS = ['labels of more than 100000 characters may be refused', 'numbers in other notations than that of the formats (underscores, surrounding spaces, booleans) and unusual quoting may be refused or read',
               'combinations that a file does not list may be refused or taken as null; if it lists one twice, either value may be taken',
               'the documented errors are ValidationError, ValueError and OSError, and those derived from them']

FORMATS = ['csv', 'json', 'txt', 'xml']
BYTES = [c.encode() for c in '0159.,-+eE"\'<>/= \n\r\tAaBP_{}[]:&;'] + [b'\x00', b'\xff', 'é'.encode()]
TOKENS = ['-1', '-0.5', '2', '1.5', '1.0000001', '1.0', '1', '0', '0.5', 'nan', 'NaN', 'inf', '-inf', 'Infinity', '1e400', '1e-400', '1e0', '5e-1', '0x1', '1_0', '0.5.', '1/2', '', ' ', 'null', 'true', 'false', '[]', '{}',
          '""', '"0.5"', '"A"', '"B"', 'A', 'B', 'C', 'E', 'P', 'E_A', 'P_A', 'P_B', 'E_x', 'x', 'state_from', 'state_to', 'probability', 'reference', 'element_from', '"probability"', '"state_to"', 'Item', 'MarkovChain', 'HiddenMarkovModel', '\u00e9', '\uff10.5', '#', '<!-- -->', '&lt;', '&x;', '"']

MODELS = [
    {'p': [[0.25, 0.75], [1.0, 0.0]], 's': ['A', 'B']},
    {'p': [[0.0, 1.0], [0.5, 0.5]], 's': ['B', 'A"é,']},
    {'p': [[0.5, 0.5, 0.0], [0.0, 0.0, 1.0], [0.1, 0.2, 0.7]], 's': ['A', 'B', 'C']},
    {'p': [[0.25, 0.75], [1.0, 0.0]], 's': ['A', 'B'], 'e': [[0.5, 0.5], [0.0, 1.0]], 'y': ['x', 'y']},
    {'p': [[1.0, 0.0], [0.5, 0.5]], 's': ['P', 'E'], 'e': [[0.5, 0.25, 0.25], [1.0, 0.0, 0.0]], 'y': ['A', 'x', 'B']},
]
PARTS = 16


def jobs(tier, seed):
    # the second order of the thorough tier: a truncation or a line-level change followed by a token-level one
    levels = ['bytes', 'tokens', 'lines', 'fields'] + (['double'] if tier != 'quick' else [])
    return [(f, m, l, i) for l in levels[::-1] for m in range(len(MODELS)) for f in FORMATS for i in range(PARTS if l in ('bytes', 'double') else 4)] + [('other', f, None, 0) for f in FORMATS] + [('files', f, None, 0) for f in FORMATS]


def text_of(f, m):
    """The file of a model, written without the library."""
    s, y = m['s'], m.get('y')
    if f == 'csv':
        def q(x):
            return '"' + x.replace('"', '""') + '"' if '"' in x or ',' in x else x
        head = s if not y else [f'P_{x}' for x in s] + [f'E_{x}' for x in y]
        rows = [r + (m['e'][i] if y else []) for i, r in enumerate(m['p'])]
        return '\r\n'.join([','.join(q(x) for x in head)] + [','.join(str(v) for v in r) for r in rows] + [''])
    items = [('P', s[i], s[j], m['p'][i][j]) for i in range(len(s)) for j in range(len(s))]
    items += [('E', s[i], y[j], m['e'][i][j]) for i in range(len(s)) for j in range(len(y))] if y else []
    names = ('reference', 'element_from', 'element_to') if y else ('state_from', 'state_to')
    items = [i if y else i[1:] for i in items]
    if f == 'txt':
        return ''.join(' '.join(map(str, i)) + '\n' for i in items)
    if f == 'json':
        return json.dumps([dict(zip(names + ('probability',), i)) for i in items])
    root = 'HiddenMarkovModel' if y else 'MarkovChain'

    def esc(x):
        return str(x).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    return f"<?xml version='1.0' encoding='utf-8' standalone='yes' ?>\n<{root}>\n" + ''.join('\t<Item ' + ' '.join(f'{k}="{esc(v)}"' for k, v in zip(names + ('probability',), i)) + '/>\n' for i in items) + f'</{root}>'


def render(f, hidden, items):
    """A file made of items, each being a list of (name, value) or, for csv, a row of cells."""
    if f == 'csv':
        return '\r\n'.join([','.join('"' + x.replace('"', '""') + '"' if '"' in x or ',' in x else x for x in r) for r in items] + [''])
    if f == 'txt':
        return ''.join(' '.join(v for _, v in i) + '\n' for i in items)
    if f == 'json':
        return '[' + ', '.join('{' + ', '.join(f'{json.dumps(k)}: {v if k == "probability" else json.dumps(v)}' for k, v in i) + '}' for i in items) + ']'
    root = 'HiddenMarkovModel' if hidden else 'MarkovChain'

    def esc(x):
        return x.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    return f"<?xml version='1.0' encoding='utf-8' standalone='yes' ?>\n<{root}>\n" + ''.join('\t<Item ' + ' '.join(f'{k}="{esc(v)}"' for k, v in i) + '/>\n' for i in items) + f'</{root}>'


def fields(f, m):
    """Every addition, removal, exchange and permutation of fields of one item (of all items at once for the columns of csv files)."""
    s, y = m['s'], m.get('y')
    if f == 'csv':
        head = s if not y else [f'P_{x}' for x in s] + [f'E_{x}' for x in y]
        items = [head] + [[str(v) for v in r + (m['e'][i] if y else [])] for i, r in enumerate(m['p'])]
        news = ['0.0', '0.5', '1.0', '', 'A', 'E_z', 'P_z']
        for j in range(len(head) + 1):
            for x in ('z', 'P_z', 'E_z'):
                for v in ('0.0', '1.0'):
                    yield ['addcol', j, x, v], [r[:j] + [v if k else x] + r[j:] for k, r in enumerate(items)]
        for j in range(len(head)):
            yield ['delcol', j], [r[:j] + r[j + 1:] for r in items]
            for k in range(len(head)):
                yield ['dupcol', j, k], [r[:k] + [r[j]] + r[k:] for r in items]
        for q in itertools.permutations(range(len(head))):
            yield ['permcol', q], [[r[k] for k in q] for r in items]
    else:
        it = [('P', s[i], s[j], m['p'][i][j]) for i in range(len(s)) for j in range(len(s))]
        it += [('E', s[i], y[j], m['e'][i][j]) for i in range(len(s)) for j in range(len(y))] if y else []
        names = ('reference', 'element_from', 'element_to', 'probability') if y else ('state_from', 'state_to', 'probability')
        items = [list(zip(names, map(str, i if y else i[1:]))) for i in it]
        news = [(k, v) for k in ('extra', 'Probability', ' probability') + tuple(sorted({'reference', 'element_from', 'element_to', 'probability', 'state_from', 'state_to'})) for v in ('0.5', 'A')]
        if f == 'json':
            news = [(k, v) for k, v in news if (k == 'probability') == (v == '0.5') or k == 'extra' and v == 'A']
        if f == 'txt':
            news = [('', v) for v in ('0.0', '0.5', 'A', 'P', '#')]
    for i, r in enumerate(items):
        for j in range(len(r)):
            yield ['remove', i, j], items[:i] + [r[:j] + r[j + 1:]] + items[i + 1:]
            yield ['twice', i, j], items[:i] + [r[:j] + [r[j]] + r[j:]] + items[i + 1:]
        for x in news:
            for j in range(len(r) + 1):
                yield ['add', i, j, x], items[:i] + [r[:j] + [x] + r[j:]] + items[i + 1:]
        for q in itertools.permutations(range(len(r))) if len(r) < 5 else ():
            yield ['order', i, q], items[:i] + [[r[k] for k in q]] + items[i + 1:]


def tokens(t):
    return re.findall(r'[A-Za-z_]+|[-+0-9.eE]+|\s+|.', t, re.S)


def variants(t, level, f, m):
    b = t.encode()
    if level == 'fields':
        for what, items in fields(f, m):
            yield what, render(f, 'y' in m, items).encode()
        return
    if level == 'bytes':
        for i in range(len(b) + 1):
            yield ['cut', i], b[:i]
        for i in range(len(b)):
            yield ['del', i], b[:i] + b[i + 1:]
            for c in BYTES:
                if b[i:i + 1] != c:
                    yield ['sub', i, c.hex()], b[:i] + c + b[i + 1:]
        for i in range(len(b) + 1):
            for c in BYTES:
                yield ['ins', i, c.hex()], b[:i] + c + b[i:]
    elif level == 'tokens':
        k = tokens(t)
        for i in range(len(k)):
            yield ['tdel', i], ''.join(k[:i] + k[i + 1:]).encode()
            yield ['tdup', i], ''.join(k[:i + 1] + k[i:]).encode()
            for x in TOKENS:
                yield ['tsub', i, x], ''.join(k[:i] + [x] + k[i + 1:]).encode()
            for j in range(i + 1, len(k)):
                if k[i] != k[j] and k[i].strip() and k[j].strip():
                    yield ['tswap', i, j], ''.join(k[:i] + [k[j]] + k[i + 1:j] + [k[i]] + k[j + 1:]).encode()
    elif level == 'lines':
        ln = re.split(r'(?<=\n)|(?<=\},)', t)
        for i in range(len(ln)):
            yield ['ldel', i], ''.join(ln[:i] + ln[i + 1:]).encode()
            yield ['lrot', i], ''.join(ln[i:] + ln[:i]).encode()
            for j in range(len(ln)):
                yield ['ldup', i, j], ''.join(ln[:j] + [ln[i]] + ln[j:]).encode()
                yield ['ldel', i, j], ''.join(x for k, x in enumerate(ln) if k not in (i, j)).encode()
                if i < j:
                    yield ['lswap', i, j], ''.join(ln[:i] + [ln[j]] + ln[i + 1:j] + [ln[i]] + ln[j + 1:]).encode()
    else:
        k = tokens(t)
        num = [i for i, x in enumerate(k) if re.fullmatch(r'[0-9.]+', x)]
        lab = [i for i, x in enumerate(k) if x in ('A', 'B', 'C', 'x', 'y', 'P', 'E')]
        few = ['0', '0.5', '0.25', '0.75', '1', '1e-05', '-0.5']
        for pool, vals in ((num, few), (lab, ['A', 'B', 'D', 'x', 'E', 'P'])):
            for i, j in itertools.combinations(pool, 2):
                for a, c in itertools.product(vals, repeat=2):
                    q = list(k)
                    q[i], q[j] = a, c
                    yield ['two', i, a, j, c], ''.join(q).encode()
        for i in range(0, len(k)):
            for j in range(i + 1, len(k) + 1):
                yield ['range', i, j], ''.join(k[:i] + k[j:]).encode()


OTHER = {
    'csv': ['', '\n', '\n\n', ',\n,\n', 'A,B', 'A,B\n', 'A,B\n1,0\n0,1\n\n', 'A\n1\n', 'A,A\n1,0\n0,1\n', 'A,B\n1,0\n0,1\n0,1\n', ' ,B\n1,0\n0,1\n', 'P_A,P_B,E_A,E_C\n1,0,1,0\n0,1,0,1\n', 'P_A,P_B,E_C\n1,0,1\n0,1,1\n', 'P_,P_B,E_C,E_D\n1,0,1,0\n0,1,0,1\n',
            'P_A,P_A,E_C,E_D\n1,0,1,0\n0,1,0,1\n', 'P_A,P_B,E_C,E_C\n1,0,1,0\n0,1,0,1\n', 'E_C,P_A,E_D,P_B\n1,1,0,0\n0.5,0,0.5,1\n', '"A,B\n1,0\n0,1\n', 'A,B\n"1",0\n0,1\n', 'A;B\n1;0\n0;1\n', 'A,B\r1,0\r0,1\r', '\ufeffA,B\n1,0\n0,1\n', '"' * 200001, 'x' * 200000 + ',B\n1,0\n0,1\n', 'A,B\n0.5,0.4\n0,1\n'],
    'json': ['', '[]', '{}', 'null', '1', '"x"', '[1]', '[[]]', '[{}]', '[' * 100000, '{"a":' * 100000, '[{"state_from": ' + '[' * 100000, '[' + '1' * 5000 + ']', '[{"state_from":"A","state_to":"A","probability":' + '1' * 5000 + '}]', '[{"state_from":"A","state_to":"A","probability":1}]',
             '[{"state_from":"A","state_to":"A","probability":1},{"state_from":"B","state_to":"B","probability":1}]', '[{"state_from":"A","state_to":"A","probability":1},{"state_from":" ","state_to":" ","probability":1}]', '[{"state_from":"A","state_to":"A","probability":null},{"state_from":"B","state_to":"B","probability":1}]',
             '[{"state_from":["A"],"state_to":["A"],"probability":1},{"state_from":"B","state_to":"B","probability":1}]', '[{"state_from":1,"state_to":1,"probability":1},{"state_from":2,"state_to":2,"probability":1}]', '[{"state_from":"A","state_to":"A","probability":0.5},{"state_from":"A","state_to":"C","probability":0.5},{"state_from":"B","state_to":"B","probability":1}]',
             '[{"reference":"P","element_from":"A","element_to":"A","probability":1},{"reference":"P","element_from":"B","element_to":"B","probability":1},{"reference":"E","element_from":"A","element_to":"B","probability":1},{"reference":"E","element_from":"A","element_to":"C","probability":0},{"reference":"E","element_from":"B","element_to":"C","probability":1}]',
             '[{"reference":"Q","element_from":"A","element_to":"A","probability":1}]', '\ufeff[]'],
    'txt': ['', '\n', ' ', 'A', 'A A 1', 'A A 1\nB B 1', 'A A 1\n\nB B 1\n', 'A A 1\nB B x\n', 'A A 1 1\n', 'A A 0.5\nA C 0.5\nB B 1\n', 'A,A,1\nB,B,1', 'P A A 1\nP B B 1\nE A B 1\nE B C 1\n', 'P A A 1\nP B B 1\nE A C 1\nE A D 0\nE B C 1\n', 'P A A 1\nP B B 1\nE A C 1\nE A D 0\nE B Z 1\n', 'Q A A 1\n', 'A B 1\nB A 1\n', 'A\u2003A\u20031\nB B 1\n',
            'A A 1\x0bB B 1', 'A A 1\u2028B B 1\n', '\ufeffA A 1\nB B 1\n'],
    'xml': ['', '<', '<a/>', '<MarkovChain/>', '<HiddenMarkovModel/>', '<MarkovChain><Item/></MarkovChain>', '<MarkovChain><MarkovChain/></MarkovChain>', '<MarkovChain>' + '<Item>' * 100000, '<MarkovChain>' + '<MarkovChain>' * 50000 + '</MarkovChain>' * 50000 + '</MarkovChain>', '<!DOCTYPE x [<!ENTITY a "A">]><MarkovChain><Item state_from="&a;" state_to="A" probability="1"/><Item state_from="B" state_to="B" probability="1"/></MarkovChain>',
            '<MarkovChain><Item state_from="A" state_to="A" probability="1"/><Item state_from="B" state_to="B" probability="1"/></MarkovChain>', '<MarkovChain><Item state_from="A" state_to="A" probability="1">x</Item><Item state_from=" " state_to=" " probability="1"/></MarkovChain>',
            '<HiddenMarkovModel><Item reference="P" element_from="A" element_to="A" probability="1"/><Item reference="P" element_from="B" element_to="B" probability="1"/><Item reference="E" element_from="A" element_to="A" probability="1"/><Item reference="E" element_from="A" element_to="C" probability="0"/><Item reference="E" element_from="B" element_to="C" probability="1"/></HiddenMarkovModel>',
            '<?xml version="1.0" encoding="utf-16"?><MarkovChain/>', '<?xml version="1.0" encoding="nonsense"?><MarkovChain/>', '<m:MarkovChain xmlns:m="x"><m:Item/></m:MarkovChain>'],
}


def cases(job):
    a, m, level, part = job
    if a in ('other', 'files'):
        yield {'o': a, 'f': m}
        return
    n = PARTS if level in ('bytes', 'double') else 4
    yield {'f': a, 'm': m, 'l': level, 'i': part, 'n': n}


NUMBER = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', re.A)
ODD = ('nan', 'inf', 'infinity')


class Refuse(Exception):
    pass


class Unclear(Exception):
    pass


def number(x):
    if isinstance(x, str):
        if NUMBER.fullmatch(x):
            x = float(x)
        else:
            try:
                v = float(x)
            except ValueError:
                raise Refuse('no number')
            if v != v or not 0.0 <= v <= 1.0:
                raise Refuse('no probability')
            raise Unclear
    elif isinstance(x, bool):
        raise Unclear
    elif not isinstance(x, (int, float)):
        raise Refuse('no number')
    if not 0.0 <= x <= 1.0:
        raise Refuse('no probability')
    return float(x)


def label(x):
    if not isinstance(x, str) or not x.strip():
        raise Refuse('no label')
    return x


def csv_rows(t):
    """Rows of a text with minimal quoting; Unclear if the quoting or the line ends are unusual."""
    rows, row, i = [], [], 0
    t = t.replace('\r\n', '\n')
    if '\r' in t or '\x00' in t:
        raise Unclear
    if t and not t.endswith('\n'):
        t += '\n'
    while i < len(t):
        if t[i] == '"':
            j, cell = i + 1, ''
            while True:
                e = t.find('"', j)
                if e < 0:
                    raise Unclear
                cell += t[j:e]
                if t[e + 1:e + 2] == '"':
                    cell += '"'
                    j = e + 2
                    continue
                break
            i = e + 1
            if t[i] not in ',\n':
                raise Unclear
        else:
            m = re.compile(r'[^,\n]*').match(t, i)
            cell = m.group()
            if '"' in cell:
                raise Unclear
            i = m.end()
        if len(cell) > 100000:
            raise Unclear
        row.append(cell)
        if t[i] == '\n':
            if row == ['']:
                raise Unclear
            rows.append(row)
            row = []
        i += 1
    if row:
        raise Unclear
    return rows


def items_of(f, hidden, raw):
    """(reference, from, to, probability) in the order of the file; the labels of a csv file are all listed."""
    try:
        t = raw.decode('utf-8')
    except UnicodeDecodeError:
        if f == 'xml':
            raise Unclear    # the declaration may say otherwise
        raise Refuse('no text')
    if f == 'csv':
        rows = csv_rows(t)
        if not rows:
            raise Refuse('empty')
        head, rows = rows[0], rows[1:]
        cols = []
        for x in head:
            if hidden:
                if x[:2] not in ('P_', 'E_'):
                    raise Refuse('header')
                cols.append((x[0], label(x[2:])))
            else:
                cols.append(('P', label(x)))
        if len(set(cols)) < len(cols):
            raise Refuse('duplicates')
        st = [x for r, x in cols if r == 'P']
        if len(rows) != len(st) or any(len(r) != len(cols) for r in rows):
            raise Refuse('shape')
        out, unclear = [], False
        for a, r in zip(st, rows):
            for (ref, b), v in zip(cols, r):
                try:
                    out.append((ref, a, b, number(v)))
                except Unclear:
                    unclear = True
        if unclear:
            raise Unclear
        return out
    names = ['reference', 'element_from', 'element_to', 'probability'] if hidden else ['state_from', 'state_to', 'probability']
    listed = []
    if f == 'txt':
        for x in re.split(r'\r\n|\r|\n', t)[:None if not re.search(r'[\r\n]\Z', t) else -1]:
            p = x.split()
            if len(p) != len(names):
                raise Refuse('line')
            listed.append(dict(zip(names, p)))
    elif f == 'json':
        try:
            d = json.loads(t, object_pairs_hook=pairs)
        except (ValueError, RecursionError):
            raise Refuse('no json')
        if not isinstance(d, list) or not all(isinstance(x, dict) for x in d):
            raise Refuse('structure')
        listed = d
    else:
        listed = xml_items(raw, 'HiddenMarkovModel' if hidden else 'MarkovChain')
    out, unclear = [], False
    for d in listed:
        if set(d) != set(names):
            raise Refuse('keys')
        ref = d['reference'] if hidden else 'P'
        if ref not in ('P', 'E'):
            raise Refuse('reference')
        a, b = label(d[names[-3]]), label(d[names[-2]])
        try:
            if f == 'json' and isinstance(d['probability'], str):
                raise Refuse('text instead of number')
            out.append((ref, a, b, number(d['probability'])))
        except Unclear:
            unclear = True
    if unclear:
        raise Unclear
    return out


def pairs(kv):
    d = dict(kv)
    if len(d) < len(kv):
        raise Unclear
    return d


def xml_items(raw, root):
    """An event parser, independent of the tree builder of the library."""
    stack, out, doctype = [], [], []
    p = xml.parsers.expat.ParserCreate(namespace_separator='}')

    def start(name, attr):
        if not stack:
            if name != root:
                raise Refuse('root')
        elif name == root:
            raise Unclear
        elif name != 'Item':
            raise Refuse('element')
        else:
            out.append(attr)
            if len(stack) > 1:
                doctype.append(1)
        stack.append(name)

    def text(x):
        if x.strip():
            doctype.append(1)
    p.StartElementHandler = start
    p.EndElementHandler = lambda name: stack.pop()
    p.StartDoctypeDeclHandler = lambda *a: doctype.append(1)
    p.CharacterDataHandler = text
    try:
        p.Parse(raw, True)
    except (xml.parsers.expat.ExpatError, ValueError, LookupError):
        raise Refuse('no xml')
    if doctype:
        raise Unclear
    return out


def reading(f, hidden, raw):
    """('refuse', why), ('unclear',) or ('model', must, reading)."""
    try:
        items = items_of(f, hidden, raw)
    except Refuse as ex:
        return 'refuse', str(ex)
    except Unclear:
        return 'unclear',
    vals, full = {}, True
    for ref, a, b, v in items:
        full &= (ref, a, b) not in vals
        vals.setdefault((ref, a, b), []).append(v)
    states = list(dict.fromkeys(a for r, a, b in vals if r == 'P'))
    froms = set(a for r, a, b in vals)
    tos = set(b for r, a, b in vals if r == 'P')
    symbols = list(dict.fromkeys(b for r, a, b in vals if r == 'E'))
    if len(set(states) | tos | froms) < 2 or hidden and len(symbols) < 2 or not hidden and symbols:
        return 'refuse', 'size'
    if set(states) & set(symbols):
        return 'refuse', 'overlapping labels'
    for ref, to in (('P', set(states) | tos), ('E', symbols)) if hidden else (('P', set(states) | tos),):
        for a in set(states) | tos | froms:
            full &= all((ref, a, b) in vals for b in to)
            lo = sum(min(vals.get((ref, a, b), [0.0])) for b in to)
            hi = sum(max(vals.get((ref, a, b), [0.0])) for b in to)
            if lo > 1.0 + 1e-4 or hi < 1.0 - 1e-4:
                return 'refuse', f'row of {a}'
            full &= abs(hi - 1.0) < 1e-9
    return 'model', full, (states, symbols, vals)


def valid(m, hidden):
    ok = True
    for x in (m.p, m.e) if hidden else (m.p,):
        ok &= isinstance(x, np.ndarray) and x.dtype == np.float64 and bool(np.isfinite(x).all() and (x >= 0).all() and (x <= 1).all() and np.allclose(x.sum(axis=1), 1.0))
    for x, n in ((m.states, m.p.shape[1]), (m.symbols, m.e.shape[1])) if hidden else ((m.states, m.p.shape[1]),):
        ok &= len(x) == n >= 2 and len(set(x)) == n and all(isinstance(s, str) and s.strip() for s in x)
    ok &= m.p.shape[0] == m.p.shape[1]
    if hidden:
        ok &= m.e.shape[0] == m.p.shape[0] and not set(m.states) & set(m.symbols)
    return ok


def examine(ctx, f, hidden, raw, what):
    import pydtmc
    cls = pydtmc.HiddenMarkovModel if hidden else pydtmc.MarkovChain
    path = os.path.join(core.SCRATCH, f'c{os.getpid()}.{f}')
    with open(path, 'wb') as h:
        h.write(raw)
    ctx.transitions += 1
    ctx.traces += 1
    r = reading(f, hidden, raw) if raw else ('refuse', 'empty')
    ctx.nontrivial += r[0] == 'refuse'
    ctx.count(f'{f} {r[0]}')
    try:
        m = cls.from_file(path)
    except (ValueError, OSError, pydtmc.ValidationError) as ex:
        m, err = None, repr(ex)
    except Exception as ex:
        ctx.fail(f'undocumented error of {f}', f'{what}: {ex!r} on {raw[:600]!r}')
        return
    with open(path, 'rb') as h:
        if h.read() != raw:
            ctx.fail(f'{f} modified', f'{what}')
    if m is None:
        if r[0] == 'model' and r[1]:
            ctx.fail(f'valid {f} refused', f'{what}: {err} on {raw[:600]!r}')
        return
    ctx.count('models read')
    if not valid(m, hidden):
        ctx.fail(f'invalid model from {f}', f'{what}: {m.states} {m.p.tolist()} {getattr(m, "symbols", "")} on {raw[:600]!r}')
        return
    if r[0] == 'refuse':
        ctx.fail(f'invalid {f} accepted', f'{what}: {r[1]}; {m.states} {m.p.tolist()} on {raw[:600]!r}')
        return
    if r[0] == 'unclear':
        return
    states, symbols, vals = r[2]
    ok = set(m.states) == set(states) and (not hidden or set(m.symbols) == set(symbols))
    if ok and r[1] and f == 'csv':
        ok = m.states == states and (not hidden or m.symbols == symbols)
    if ok:
        for ref, to, x in (('P', m.states, m.p), ('E', m.symbols, m.e)) if hidden else (('P', m.states, m.p),):
            for i, j in itertools.product(range(len(m.states)), range(len(to))):
                ok &= float(x[i, j]) in vals.get((ref, m.states[i], to[j]), [0.0])
    if not ok:
        ctx.fail(f'model differs from {f}', f'{what}: {m.states} {m.p.tolist()} {getattr(m, "symbols", "")} {m.e.tolist() if hidden else ""} on {raw[:600]!r}')


def check(ctx, case):
    import pydtmc
    f = case['f']
    if case.get('o') == 'other':
        for i, t in enumerate(OTHER[f]):
            for hidden in (False, True):
                ctx.states += 1
                examine(ctx, f, hidden, t.encode(), ['other', i, hidden])
        for g in FORMATS:
            for m in MODELS:
                for hidden in (False, True):
                    examine(ctx, f, hidden, text_of(g, m).encode(), ['format', g, hidden, m])
        for m in MODELS:
            t = text_of(f, m)
            for enc in ('utf-8-sig', 'utf-16', 'utf-32', 'utf-16-le', 'latin-1'):
                raw = t.encode(enc, 'replace')
                path = os.path.join(core.SCRATCH, f'c{os.getpid()}.{f}')
                pathlib.Path(path).write_bytes(raw)
                try:
                    r = (pydtmc.HiddenMarkovModel if 'y' in m else pydtmc.MarkovChain).from_file(path)
                    ctx.expect(valid(r, 'y' in m), 'invalid model', f'{enc} {f}')
                except (ValueError, OSError, pydtmc.ValidationError):
                    pass
                ctx.traces += 1
        return
    if case.get('o') == 'files':
        d = os.path.join(core.SCRATCH, f'd{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        os.makedirs(os.path.join(d, f'dir.{f}'), exist_ok=True)
        if not os.path.islink(os.path.join(d, f'loop.{f}')):
            os.symlink(f'loop.{f}', os.path.join(d, f'loop.{f}'))
            os.symlink('nowhere', os.path.join(d, f'dangling.{f}'))
        for cls in (pydtmc.MarkovChain, pydtmc.HiddenMarkovModel):
            for name in (f'missing.{f}', f'dir.{f}', f'loop.{f}', f'dangling.{f}', f'missing/x.{f}', f'x.{f}/y.{f}', f'nul\x00.{f}', f'.{f}', f):
                ctx.transitions += 1
                ctx.traces += 1
                try:
                    cls.from_file(os.path.join(d, name))
                    ctx.fail('no error', name)
                except (ValueError, OSError, pydtmc.ValidationError):
                    pass
        ctx.states += 1
        return
    m = MODELS[case['m']]
    hidden = 'y' in m
    t = text_of(f, m)
    spaced = f == 'txt' and any(' ' in s for s in m['s'])
    if case['i'] == 0:
        r = reading(f, hidden, t.encode())
        if not spaced and (r[0] != 'model' or not r[1]):
            raise RuntimeError(f'the reference does not read its own file: {f} {m} {r}')
        # the files of the library are those described by its documentation
        mc = pydtmc.HiddenMarkovModel(m['p'], m['e'], m['s'], m['y']) if hidden else pydtmc.MarkovChain(m['p'], m['s'])
        path = os.path.join(core.SCRATCH, f'c{os.getpid()}.{f}')
        mc.to_file(path)
        raw = pathlib.Path(path).read_bytes()
        r2 = reading(f, hidden, raw)
        ctx.expect(r2 == r, f'content of {f}', lambda: f'{r2} {r}')
        examine(ctx, f, hidden, raw, ['written'])
    for what, raw in itertools.islice(variants(t, case['l'], f, m), case['i'], None, case['n']):
        ctx.states += 1
        examine(ctx, f, hidden, raw, [case['m']] + what)
