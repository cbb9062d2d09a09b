#!/usr/bin/env python3
"""One-off: freeze the MAVLink message dictionary into harness/ref/dict.json.

Reads the sources of the pinned commit (git show <rev>:...), not the working tree.
Every entry is cross-checked against the MAVLink CRC_EXTRA rule (hash over message
name, base field types, names and array lengths): `confirmed` says that the CRC_EXTRA
was re-derived from the definition, i.e. that field types, order, array lengths and
the CRC byte agree with each other independently of this library's arithmetic.
No check runs this script; the table it wrote is the reference the checks compare with.
"""
import itertools, json, re, subprocess, sys

REV = 'd9b9d06'
REPO = '/repo'
SIZE = {'byte': 1, 'uint8': 1, 'int8': 1, 'uint16': 2, 'int16': 2, 'uint32': 4, 'int32': 4,
        'float32': 4, 'uint64': 8, 'int64': 8, 'float64': 8}
CT = {'byte': 'char', 'uint8': 'uint8_t', 'int8': 'int8_t', 'uint16': 'uint16_t', 'int16': 'int16_t',
      'uint32': 'uint32_t', 'int32': 'int32_t', 'uint64': 'uint64_t', 'int64': 'int64_t',
      'float32': 'float', 'float64': 'double'}


def git(*a):
    return subprocess.check_output(['git', '-C', REPO, *a], text=True)


def crc(b, c=0xffff):
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ 0x8408 if c & 1 else c >> 1
    return c


def fold(x):
    return (x & 255) ^ (x >> 8)


def snake(n):
    return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).lower()


STYLES = {
    'snake': snake,
    'lower': str.lower,
    'camel': lambda n: n[0].lower() + n[1:],
    'asis': lambda n: n,
    'upper': str.upper,
    'snake_digits': lambda n: re.sub(r'(?<=[a-z])(\d)', r'_\1', snake(n)),
    'snake_nodigits': lambda n: re.sub(r'(\d)_', r'\1', snake(n)),
}


def derive(fn, base):
    """CRC_EXTRA under one uniform naming style per message, or per-field mixes of few styles."""
    def run(names):
        c = crc((fn + ' ').encode())
        for (n, t, a), w in zip(base, names):
            c = crc((CT[t] + ' ' + w + ' ').encode(), c)
            if a:
                c = crc(bytes([a]), c)
        return fold(c)
    return run


def main():
    files = git('ls-tree', '-r', '--name-only', REV).split()
    out = []
    for f in sorted(files):
        d = f.split('/')
        if len(d) != 2 or not f.endswith('.go') or d[0] in ('util', 'cmd') or d[1] in ('dialect.go', 'enums.go'):
            continue
        s = git('show', REV + ':' + f)
        ds = git('show', REV + ':' + d[0] + '/dialect.go')
        m = re.search(r'^type (\w+) struct \{(.*?)^\}', s, re.S | re.M)
        name = m.group(1)
        mid = int(re.search(r'GetID\(\) uint32 \{\s*return (\d+)', s).group(1))
        dia = re.search(r'GetDialect\(\) string \{\s*return "(\w+)"', s).group(1)
        meta = re.search(r'\b%d:\s+mavlink2.MessageMeta\{CRCExtra: (\d+), MinimumLength: (\d+), MaximumLength: (\d+)' % mid, ds)
        if not meta or '&%s{}' % name not in ds:
            print('not in dialect:', f, file=sys.stderr)
            continue
        cx, mn, mx = map(int, meta.groups())
        fields, tot = [], 0
        for l in m.group(2).split('\n'):
            q = re.match(r'\t(\w+) (\[(\d+)\])?(\w+)$', l)
            if not q or q.group(1) == 'HasExtensionFieldValues' or (mid == 248 and q.group(1) == 'PayloadLength'):
                continue
            n, t, a = q.group(1), q.group(4), int(q.group(3) or 0)
            ext = tot >= mn
            fields.append(dict(name=n, type='uint8' if t == 'byte' else t, len=a, char=t == 'byte', ext=ext, _t=t))
            tot += SIZE[t] * max(1, a)
        assert tot == mx, (f, tot, mx)
        base = [(x['name'], x['_t'], x['len']) for x in fields if not x['ext']]
        assert sum(SIZE[t] * max(1, a) for _, t, a in base) == mn, f
        sizes = [SIZE[t] for _, t, _ in base]
        assert sizes == sorted(sizes, reverse=True), f
        fn = d[1][:-3].upper()
        run = derive(fn, base)
        conf = next((k for k, st in STYLES.items() if run([st(n) for n, _, _ in base]) == cx), '')
        for x in fields:
            del x['_t']
        e = dict(dialect=dia, pkg=d[0], name=name, id=mid, crc=cx, min=mn, max=mx, fields=fields, confirmed=conf)
        if mid == 248 and dia == 'common':
            e['variable'] = True  # trailing array is as long as the message says
            e['min'] = 5
        out.append(e)
    out.sort(key=lambda e: (e['pkg'], e['id']))
    with open('/verif/harness/ref/dict.json', 'w') as fh:
        fh.write('[\n' + ',\n'.join(json.dumps(e, separators=(',', ':')) for e in out) + '\n]\n')
    print(len(out), 'messages,', sum(bool(e['confirmed']) for e in out), 'with re-derived CRC_EXTRA')
    for e in out:
        if not e['confirmed']:
            print('  not re-derived:', e['pkg'], e['id'], e['name'], [f['name'] for f in e['fields'] if not f['ext']][:8])


main()
