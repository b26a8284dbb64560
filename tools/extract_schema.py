#!/usr/bin/env python3
"""One-off: read the regular, XSD-generated type definitions of the pinned commit and write the
reference schema (/verif/schema/schema.json).  The checks never run this: they use the committed
schema as the specification, so a later change to the code cannot change the specification.

usage: extract_schema.py REPO OUT
"""
import json, os, re, sys

REPO, OUT = sys.argv[1:3]
anomalies = []

def rust_str(s):
    # body of a normal rust string literal
    return (s.replace('\\\\', '\0').replace('\\"', '"').replace("\\'", "'")
             .replace('\\n', '\n').replace('\\t', '\t').replace('\\r', '\r').replace('\0', '\\'))

STR = r'"((?:[^"\\]|\\.)*)"'

def parse_type(t):
    card = 'req'
    if t.startswith('Option<'):
        card = 'opt'; t = t[7:-1]
    if t.startswith('Vec<'):
        card = 'optvec' if card == 'opt' else 'vec'; t = t[4:-1]
    boxed = False
    if t.startswith('Box<'):
        boxed = True; t = t[4:-1]
    assert '<' not in t, t
    return card, t, boxed

def parse_module(path):
    src = open(path).read()
    types = {}
    pos = 0
    for m in re.finditer(r'((?:^//[^\n]*\n)*)^#\[derive\(([^)]*)\)\]\n(?:#\[serde\(rename = "(\w+)"\)\]\n)?pub (struct|enum) (\w+) \{\n(.*?)^\}\n', src, re.M | re.S):
        doc, derive, rename, kind, name, body = m.groups()
        if kind == 'enum':
            vals = re.findall(r'#\[serde\(rename = ' + STR + r'\)\]\s*(\w+),', body)
            left = re.sub(r'#\[serde\(rename = ' + STR + r'\)\]\s*(\w+),|#\[default\]', '', body).strip()
            if left: anomalies.append((path, name, 'enum leftovers', left))
            types[name] = {'kind': 'enum', 'values': [rust_str(v[0]) for v in vals]}
        else:
            fields = []
            rest = body
            for fm in re.finditer(r'#\[serde\(\s*rename = ' + STR + r'(,\s*skip_serializing_if = "Option::is_none",?)?\s*\)\]\s*pub (?:r#)?(\w+): ([^\n]+),\n', body):
                xml, skip, rn, ty = fm.groups()
                card, t, boxed = parse_type(ty)
                if bool(skip) != card.startswith('opt'): anomalies.append((path, name, rn, 'skip/option mismatch'))
                fields.append({'xml': xml, 'rust': rn, 'card': card, 'type': t, 'boxed': boxed})
            left = re.sub(r'#\[serde\(\s*rename = ' + STR + r'(,\s*skip_serializing_if = "Option::is_none",?)?\s*\)\]\s*pub (?:r#)?(\w+): ([^\n]+),\n', '', body).strip()
            if left: anomalies.append((path, name, 'struct leftovers', left))
            types[name] = {'kind': 'struct', 'fields': fields}
            if rename: types[name]['rename'] = rename
    # validators
    for m in re.finditer(r'^impl Validate for (\w+) \{\n(.*?)^\}\n', src, re.M | re.S):
        name, body = m.groups()
        if name not in types: anomalies.append((path, name, 'validate for unknown')); continue
        t = types[name]; t['has_validate'] = True
        if t['kind'] == 'enum': continue
        byrust = {f['rust']: f for f in t['fields']}
        bm = re.search(r'fn validate\([^)]*\) \{(.*)\}\s*$', body, re.S)
        b = bm.group(1)
        # normalise whitespace outside strings
        toks = re.split(r'(' + r'"(?:[^"\\]|\\.)*"' + r')', b)
        norm = ''.join(x if i % 2 else re.sub(r'\s+', ' ', x) for i, x in enumerate(toks))
        norm = re.sub(r' ?\. ?validate', '.validate', norm)
        stmts = []
        order = []
        def grab(rx, fn):
            nonlocal norm
            for mm in list(re.finditer(rx, norm)):
                order.append((mm.start(), mm, fn))
            norm = re.sub(rx, lambda mm: '~' * len(mm.group(0)), norm)
        CP = r'&helpers::child_path\(path, ' + STR + r'\)'
        LEN = r'helpers::validate_length\( (?P<v>&self\.\w+|val|item), ' + STR + r', (Some\((\d+)\)|None), (Some\((\d+)\)|None), ' + CP + r', config, collector, \);'
        PAT = r'helpers::validate_pattern\( (?P<v>&self\.\w+|val|item), ' + STR + r', ' + STR + r', ' + CP + r', config, collector, \);'
        VAL = r'(?P<v>self\.\w+|val|item)\.validate\( ?' + CP + r', config, collector,? ?\);'
        O1 = r'if let Some\(ref (val|vec)\) = self\.(\w+) (&& config\.validate_optional_fields )?\{ '
        def handle(fname, gated, loop, inner):
            f = byrust.get(fname.replace('r#',''))
            if f is None: anomalies.append((path, name, fname, 'validator on unknown field')); return
            inner = inner.strip()
            mm = re.fullmatch(LEN, inner)
            if mm:
                g = mm.groups()
                fn_, mn, mx, cp = mm.group(2), mm.group(4), mm.group(6), mm.group(7)
                if fn_ != f['xml'] or cp != f['xml']: anomalies.append((path, name, fname, 'label', fn_, cp, f['xml']))
                if gated: anomalies.append((path, name, fname, 'gated simple'))
                if 'len' in f: anomalies.append((path, name, fname, 'dup len'))
                f['len'] = [int(mn) if mn else None, int(mx) if mx else None]; f.setdefault('checks', []).append('len'); return
            mm = re.fullmatch(PAT, inner)
            if mm:
                fn_, pat, cp = mm.group(2), mm.group(3), mm.group(4)
                if fn_ != f['xml'] or cp != f['xml']: anomalies.append((path, name, fname, 'label', fn_, cp, f['xml']))
                if gated: anomalies.append((path, name, fname, 'gated simple'))
                if 'pattern' in f: anomalies.append((path, name, fname, 'dup pattern'))
                f['pattern'] = rust_str(pat); f.setdefault('checks', []).append('pattern'); return
            mm = re.fullmatch(VAL, inner)
            if mm:
                cp = mm.group(2)
                if cp != f['xml']: anomalies.append((path, name, fname, 'label', cp, f['xml']))
                f.setdefault('checks', []).append('nested')
                f['gated'] = gated
                return
            anomalies.append((path, name, fname, 'inner?', inner))
        s = norm.strip()
        while s:
            mm = re.match(r'helpers::validate_(length|pattern)\( &self\.(\w+), (?:"(?:[^"\\]|\\.)*"|[^"])*?\);', s)
            if mm:
                handle(mm.group(2), False, False, mm.group(0)); s = s[mm.end():].strip(); continue
            mm = re.match(r'self\.(\w+)\.validate\( ?' + CP + r', config, collector,? ?\);', s)
            if mm:
                handle(mm.group(1), False, False, mm.group(0)); s = s[mm.end():].strip(); continue
            mm = re.match(O1 + r'(for item in vec \{ )?((?:"(?:[^"\\]|\\.)*"|[^"{}])*?)\} ?(\} ?)?', s)
            if mm:
                handle(mm.group(2), bool(mm.group(3)), bool(mm.group(4)), mm.group(5))
                if bool(mm.group(4)) != bool(mm.group(mm.lastindex) and mm.group(mm.lastindex).startswith('}')):
                    anomalies.append((path, name, mm.group(2), 'brace')) 
                s = s[mm.end():].strip(); continue
            mm = re.match(r'for item in &self\.(\w+) \{ ((?:"(?:[^"\\]|\\.)*"|[^"{}])*?)\} ?', s)
            if mm:
                handle(mm.group(1), False, True, mm.group(2)); s = s[mm.end():].strip(); continue
            anomalies.append((path, name, 'stmt?', s[:200])); break
    return types

out = {'documents': {}, 'headers': {}}
for d, key in (('document', 'documents'), ('header', 'headers')):
    for fn in sorted(os.listdir(f'{REPO}/src/{d}')):
        if fn == 'mod.rs': continue
        out[key][fn[:-3]] = parse_module(f'{REPO}/src/{d}/{fn}')

for key in out:
    for mod, types in out[key].items():
        for tn, t in types.items():
            if not t.get('has_validate'): anomalies.append((mod, tn, 'no Validate'))
            if t['kind'] != 'struct': continue
            for f in t['fields']:
                if f['type'] not in ('String', 'f64', 'bool') and f['type'] not in types:
                    anomalies.append((mod, tn, f['rust'], 'unknown type', f['type']))
                if f['type'] in types and 'nested' not in f.get('checks', []):
                    anomalies.append((mod, tn, f['rust'], 'nested not validated', f['type']))
json.dump(out, open(OUT, 'w'), indent=0, sort_keys=False)
for a in anomalies: print(a)
n = sum(len(t) for k in out.values() for t in k.values())
nf = sum(len(x.get('fields', [])) for k in out.values() for t in k.values() for x in t.values())
print('types', n, 'fields', nf, 'anomalies', len(anomalies))
