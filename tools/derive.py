"""Writes the declarations that spec/GenDerive.tla generated as Rust."""
import json

LIB = 'svh_derive'
ATTR = {'transparent': 'transparent', 'dyn': 'dynamic', 'unl': 'unlabeled_fields', 'uni': 'unindexed_fields', 'unlv': 'unlabeled_variants', 'univ': 'unindexed_variants',
        'lab': 'label = "x y"', 'labp': 'label = %s::LBL' % LIB, 'idx': 'index = 7', 'idxn': 'index = -3', 'idxp': 'index = %s::IDX' % LIB, 'noskip': 'skip = false', 'flat': 'flatten', 'unknown': 'no_such_attribute'}
TYPES = {'i32': ('i32', '-5'), 'str': ("&'static str", '"h\\u{e9}"'), 'some': ('::std::option::Option<bool>', '::std::option::Option::Some(true)'), 'none': ('::std::option::Option<bool>', '::std::option::Option::None'),
         'vec': ('Vec<u8>', 'vec![1, 2]'), 'map': (LIB + '::BTreeMap<u8, bool>', LIB + '::map()'), 'tup': ('(i32, bool)', '(3, true)'), 'inner': (LIB + '::Inner', LIB + '::Inner { x: 1, y: true }'),
         'pair': (LIB + '::Pair', LIB + '::Pair(8, 9)'), 'var': (LIB + '::Var', LIB + '::Var::B(7)'), 'arr': ('[u8; 2]', '[5, 6]'), 'unit': ('()', '()'), 'boxed': ('Box<str>', '"b".into()'),
         'genT': ('T', '-5i32'), 'genL': ("&'a str", '"h\\u{e9}"'), 'genN': ('[u8; N]', '[5, 6]'),
         'genB': ('T', '-5i32'), 'genW': ('T', '-5i32'), 'genD': ('T', '-5i32'), 'genM': ("(&'a [T; N], Box<T>)", '(&[5, 6], Box::new(7))')}
GENERICS = {'': ('', ''), 'genT': ('<T>', '::<i32>'), 'genL': ("<'a>", ''), 'genN': ('<const N: usize>', '::<2>'),
            'genB': ('<T: Clone + %s::Mark>' % LIB, '::<i32>'), 'genW': ('<T>', '::<i32>'), 'genD': ('<T = i32>', '::<i32>'), 'genM': ("<'a, T: 'a, const N: usize>", '::<u8, 2>')}
WHERE = {'genW': ' where T: Clone + %s::Mark' % LIB}


def ty(f, seed):
    """The type and value of a field; a skipped one need not be a value."""
    if 'skip' in f['attrs'] and seed % 2 and not f['ty'].startswith('gen'):
        return LIB + '::Opaque', LIB + '::Opaque'
    return TYPES[f['ty']]


def attrs(codes, seed, skip=('disc',)):
    out = []
    for c in codes:
        if c in skip:
            continue
        if c in ('tag', 'dtag', 'dup'):
            t = '%s::%s' % (LIB, 'T2' if c == 'dtag' else 'T1')
            t = '"%s"' % t if seed % 3 == 0 else t
            k = 'data_tag' if c == 'dtag' else 'tag'
            out += ['%s = %s' % (k, t)] * (2 if c == 'dup' else 1)
        elif c == 'skip':
            out.append('skip = true' if seed % 5 == 0 else 'skip')
        else:
            out.append(ATTR[c])
    if seed % 4 < 2:
        out.reverse()
    if not out:
        return ''
    return '#[sval(%s)] ' % ', '.join(out) if seed % 2 else ''.join('#[sval(%s)] ' % a for a in out)


def body(b, seed, pub):
    fs = [(f['name'], attrs(f['attrs'], seed + i), ty(f, seed)[0]) for i, f in enumerate(b['fields'])]
    if b['shape'] == 'unit':
        return ''
    if b['shape'] == 'named':
        return ' { %s }' % ', '.join('%s%s%s: %s' % (a, pub, n, t) for n, a, t in fs)
    return '(%s)' % ', '.join('%s%s%s' % (a, pub, t) for n, a, t in fs)


def decl(d):
    g = GENERICS[d['gen']]
    seed = d['seed']
    s = '#[derive(sval_derive::Value)] ' + attrs(d['attrs'], seed)
    if any('disc' in b['attrs'] for b in d['bodies']):
        s += '#[repr(i32)] '
    w = WHERE.get(d['gen'], '')
    if not d['enum']:
        b = d['bodies'][0]
        fs = body(b, seed, 'pub ')
        return s + 'pub struct %s%s%s' % (d['name'], g[0], w + fs if b['shape'] == 'named' else fs + w + ';')
    return s + 'pub enum %s%s%s { %s }' % (d['name'], g[0], w, ', '.join(
        attrs(b['attrs'], seed + i) + b['name'] + body(b, seed, '') + (' = ' + b['disc'] if 'disc' in b['attrs'] else '') for i, b in enumerate(d['bodies'])))


def value(d, i):
    b = d['bodies'][i]
    path = d['name'] + GENERICS[d['gen']][1] + ('::' + b['name'] if d['enum'] else '')
    vs = [ty(f, d['seed'])[1] for f in b['fields']]
    if b['shape'] == 'unit':
        return path
    if b['shape'] == 'named':
        return '%s { %s }' % (path, ', '.join('%s: %s' % (f['name'], v) for f, v in zip(b['fields'], vs)))
    return '%s(%s)' % (path, ', '.join(vs))


ALLOW = '#![allow(non_camel_case_types, dead_code, unused, clippy::all)]\n'


def load(files):
    """All declarations, the same one once."""
    seen, ok, bad = set(), [], []
    for f in files:
        for l in open(f):
            d = json.loads(json.loads(l))
            t = decl(d)
            if t not in seen:
                seen.add(t)
                (bad if d['reject'] else ok).append(d)
    return ok, bad


def accepted(ds):
    """A program that judges each of the declarations."""
    out = [ALLOW]
    for n, d in enumerate(ds):
        out.append('mod m%d {\n%s\npub fn run(r: &mut %s::Run) { %s }\n}\n' % (n, decl(d), LIB, ' '.join('r.value(%d, &%s);' % (i, value(d, i)) for i in range(len(d['bodies'])))))
    out.append('fn main() { %s::main(&[%s]) }\n' % (LIB, ', '.join('m%d::run' % n for n in range(len(ds)))))
    return ''.join(out)


def rejected(ds):
    """A program in which every line after the first must be refused."""
    return ALLOW + ''.join('mod m%d { %s }\n' % (n, decl(d)) for n, d in enumerate(ds)) + 'fn main() {}\n'
