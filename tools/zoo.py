#!/usr/bin/env python3
"""Writes the derived types of harness/zoo: struct and enum definitions in which every pair of attribute
choices occurs, each with the documents it is about. Deterministic. Usage: zoo.py OUT"""
import sys, itertools
out = []
def w(s): out.append(s)
n_type = 0
def fresh(p):
    global n_type; n_type += 1
    return f'{p}{n_type}'

# ---- serde's naming rules, for the template documents only (serde itself is the oracle)
def words_snake(s): return s.split('_')
def pascal(s):
    r, cap = '', True
    for c in s:
        if c == '_': cap = True
        elif cap: r += c.upper(); cap = False
        else: r += c
    return r
def field_rule(rule, s):
    if rule is None or rule in ('lowercase', 'snake_case'): return s
    if rule in ('UPPERCASE', 'SCREAMING_SNAKE_CASE'): return s.upper()
    if rule == 'PascalCase': return pascal(s)
    if rule == 'camelCase': p = pascal(s); return p[0].lower() + p[1:]
    if rule == 'kebab-case': return s.replace('_', '-')
    if rule == 'SCREAMING-KEBAB-CASE': return s.upper().replace('_', '-')
def snake(s): return ''.join(('_' if i and c.isupper() else '') + c.lower() for i, c in enumerate(s))
def variant_rule(rule, s):
    if rule is None or rule == 'PascalCase': return s
    if rule == 'lowercase': return s.lower()
    if rule == 'UPPERCASE': return s.upper()
    if rule == 'camelCase': return s[0].lower() + s[1:]
    t = snake(s)
    return {'snake_case': t, 'SCREAMING_SNAKE_CASE': t.upper(), 'kebab-case': t.replace('_', '-'), 'SCREAMING-KEBAB-CASE': t.upper().replace('_', '-')}[rule]
RULES = ['lowercase', 'UPPERCASE', 'PascalCase', 'camelCase', 'snake_case', 'SCREAMING_SNAKE_CASE', 'kebab-case', 'SCREAMING-KEBAB-CASE']

def lit(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def obj(kv): return 'O(&[' + ', '.join(f'({lit(k)}, {t})' for k, t in kv) + '])'
def xobj(kv): return 'X' + obj(kv)[1:] # an object that must not have other keys
def arr(ts): return 'A(&[' + ', '.join(ts) + '])'

# ---- field kinds: (attributes, type, template or None if not read, key override, default?, option type?)
class F:
    def __init__(s, name, attrs='', ty='u8', tm='N', read=True, key=None, default=False, opt=False, ident=None):
        s.name, s.attrs, s.ty, s.tm, s.read, s.key, s.default, s.opt, s.ident = name, attrs, ty, tm, read, key, default, opt, ident
LEAF = 'R(&' + obj([('v', 'N')]) + ')' # the document of a named type: changed as a whole only
FIELDS = [
    F('plain'), F('ren', 'rename = "re_n"', key='re_n'), F('rend', 'rename(deserialize = "de_n")', key='de_n', ty='String', tm='S'), F('rens', 'rename(serialize = "se_n")'),
    F('renb', 'rename(serialize = "se_n", deserialize = "de_m")', key='de_m'), F('skip', 'skip', read=False), F('skipser', 'skip_serializing', ty='bool', tm='B'),
    F('skipde', 'skip_deserializing', read=False), F('def', 'default', default=True), F('defp', 'default = "some"', default=True), F('rendef', 'default, rename = "rd"', key='rd', default=True, ty='String', tm='S'),
    F('skipdefault', 'skip, default', read=False), F('opt', ty='Option<u8>', tm='ON', opt=True), F('optdef', 'default, skip_serializing_if = "Option::is_none"', ty='Option<u8>', tm='ON', opt=True, default=True),
    F('vec', ty='Vec<String>', tm='L(&S)'), F('named', ty='Leaf', tm=LEAF), F('boxed', ty='Box<Leaf>', tm=LEAF), F('raw', ident='r#type'), F('odd', 'rename = "a-b c"', key='a-b c'), F('tuple', ty='(u8, String)', tm=arr(['N', 'S'])),
    F('renskip', 'rename = "rs", skip_serializing', key='rs'), F('defskipser', 'default, skip_serializing', default=True), F('vecnamed', ty='Vec<Leaf>', tm=f'L(&{LEAF})'),
]
IDENTS = ['alpha', 'be_ta', 'c3_d4_e']
CONT = [None] + [('rename_all', r) for r in RULES if r not in ('lowercase', 'snake_case', 'UPPERCASE')] + [('rename_all', 'UPPERCASE')] + [('de', 'UPPERCASE'), ('ser', 'UPPERCASE'), ('default', None), ('defpath', None), ('rename', None), ('renall_default', 'camelCase')]
def cont_attr(c):
    """(attributes, rule, default, renamed)"""
    if c is None: return '', None, False, False
    k, r = c
    return {'rename_all': (f'rename_all = "{r}"', r, False, False), 'de': (f'rename_all(deserialize = "{r}")', r, False, False), 'ser': (f'rename_all(serialize = "{r}")', None, False, False),
            'default': ('default', None, True, False), 'defpath': ('default = "whole"', None, True, False), 'rename': ('rename = "Other_"', None, False, True), 'renall_default': (f'default, rename_all = "{r}"', r, True, False)}[k]
def pairwise(dims):
    """rows such that every pair of values of two dimensions occurs"""
    need = {(i, a, j, b) for i, j in itertools.combinations(range(len(dims)), 2) for a in range(dims[i]) for b in range(dims[j])}
    rows, seed = [], 12345
    while need:
        best = None
        for _ in range(30):
            seed = (seed * 1103515245 + 12345) % 2**31
            i, a, j, b = sorted(need)[seed % len(need)]
            row = [None] * len(dims); row[i] = a; row[j] = b
            for k in range(len(dims)):
                if row[k] is None:
                    score = lambda v: sum(1 for m in range(len(dims)) if row[m] is not None and ((m, row[m], k, v) if m < k else (k, v, m, row[m])) in need)
                    seed = (seed * 1103515245 + 12345) % 2**31
                    row[k] = max(range(dims[k]), key=lambda v: (score(v), (v * 7919 + seed) % 101))
            got = {(i, row[i], j, row[j]) for i, j in itertools.combinations(range(len(dims)), 2)} & need
            if best is None or len(got) > len(best[1]): best = (row, got)
        rows.append(best[0]); need -= best[1]
    return rows

cases = []
def lens(names): return '&[' + ', '.join(str(x) for x in sorted({len(n) for n in names if n})) + ']'
def case(name, kind, docs, names, keys=None, tag=None, nvar=None, refname=None, skipped=(), stmt=''):
    ks = 'None' if keys is None else 'Some(&[' + ', '.join(f'Key {{ key: {lit(k)}, zt: zt::<{ty}>, default: {str(d).lower()}, opt: {str(o).lower()} }}' for k, ty, d, o in keys) + '])'
    cases.append((kind, f'Case {{ name: {lit(name)}, zt: full::<{name}>, used: zt::<{name}>, exported: {lit(refname or name)}, reads: reads::<{name}>, docs: &[{", ".join(docs)}], lens: {lens(names)}, keys: {ks}, tag: {"None" if tag is None else f"Some({lit(tag)})"} }}'))
def decl(name, body, attrs='', ns='Ns', derive='Deserialize, Zod'):
    a = f'#[serde({attrs})] ' if attrs else ''
    w(f'#[derive({derive})] #[zod(namespace = "{ns}")] {a}pub {body}')
def default_impl(name, body): w(f'impl Default for {name} {{ fn default() -> Self {{ {body} }} }} impl {name} {{ #[allow(dead_code)] fn whole() -> Self {{ Self::default() }} }}')

# ---- structs with named fields
def struct(c, fs):
    name = fresh('S')
    attrs, rule, cdef, renamed = cont_attr(c)
    attrs = attrs.replace('"whole"', f'"{name}::whole"').replace('Other_', f'Other_{name}')
    body, keys, names, tms = [], [], [], []
    for f, ident in zip(fs, IDENTS):
        ident = f.ident or ident
        plain = ident.replace('r#', '')
        key = f.key or field_rule(rule, plain)
        a = f'#[serde({f.attrs})] ' if f.attrs else ''
        body.append(f'{a}pub {ident}: {f.ty}')
        names += [plain, key, field_rule(rule, plain)]
        if f.read:
            keys.append((key, f.ty, f.default or cdef, f.opt)); tms.append((key, f.tm))
    if len({k for k, *_ in keys}) < len(keys): return
    decl(name, f'struct {name} {{ {", ".join(body)} }}', attrs)
    if cdef: default_impl(name, f'{name} {{ {", ".join((f.ident or i) + ": Default::default()" for f, i in zip(fs, IDENTS))} }}')
    case(name, 'named', [obj(tms)], names, keys, refname=f'Other_{name}' if renamed else None)
for ci, c in enumerate(CONT):
    # every kind of field under every container attribute, at changing places
    order = [FIELDS[(i * 7 + ci * 5) % len(FIELDS)] for i in range(len(FIELDS))]
    while len(order) % 3: order.append(FIELDS[(len(order) + ci) % 3])
    for k in range(0, len(order), 3): struct(c, order[k:k + 3])
for i, f in enumerate(FIELDS): struct(CONT[i % len(CONT)], [f])
struct(None, [])

# ---- tuple structs, newtypes
T = [F('plain'), F('str', ty='String', tm='S'), F('def', 'default', default=True), F('skip', 'skip', read=False), F('skipde', 'skip_deserializing', read=False), F('skipser', 'skip_serializing'), F('named', ty='Leaf', tm=LEAF), F('opt', ty='Option<u8>', tm='ON', opt=True)]
DEFP = F('defp', 'default = "some"', default=True)
def tuple_struct(fs, attrs='', cdef=False):
    read = [f for f in fs if f.read] if len(fs) > 1 else fs
    opts = [f.default or cdef for f in read]
    if any(a and not b for a, b in zip(opts, opts[1:])): return
    if len(fs) == 1 and (fs[0].default or cdef): return
    if len(fs) > 1 and not read: return
    name = fresh('T')
    attrs = attrs.replace('"whole"', f'"{name}::whole"')
    decl(name, f'struct {name}({", ".join((f"#[serde({f.attrs})] " if f.attrs else "") + "pub " + f.ty for f in fs)});', attrs)
    if cdef: default_impl(name, f'{name}({", ".join("Default::default()" for f in fs)})')
    tms = [('D(&' + f.tm + ')' if d else f.tm) for f, d in zip(read, opts)]
    case(name, 'tuple', [tms[0] if len(fs) == 1 else arr(tms)], [])
for f in T: tuple_struct([f])
for a, b in itertools.product(T, T): tuple_struct([a, b])
for i in range(len(T)): tuple_struct([T[0], T[i], T[(i + 3) % 8]]); tuple_struct([T[i], T[6], T[2]])
tuple_struct([T[0], DEFP]); tuple_struct([T[5], DEFP, T[2]]); tuple_struct([T[0]] * 5); tuple_struct([T[0], T[1], T[6], T[2], T[2]])

# ---- transparent, from, try_from
def transparent(body, tm): name = fresh('P'); decl(name, body.replace('NAME', name), 'transparent'); case(name, 'wrapped', [tm], [])
transparent('struct NAME { pub a: u8 }', 'N'); transparent('struct NAME(pub String);', 'S'); transparent('struct NAME { #[serde(skip)] pub x: String, pub a: u8 }', 'N')
transparent('struct NAME { pub a: u8, #[serde(skip)] pub x: String, #[serde(skip)] pub y: bool }', 'N'); transparent('struct NAME { #[serde(skip)] pub x: String, pub a: Leaf, #[serde(default, skip_serializing)] pub y: String }', LEAF)
transparent('struct NAME(#[serde(skip)] pub u8, pub String);', 'S'); transparent('struct NAME { pub m: std::marker::PhantomData<u8>, pub a: Vec<Leaf> }', f'L(&{LEAF})'); transparent('struct NAME(pub std::marker::PhantomData<String>, pub u8);', 'N')
transparent('struct NAME { #[serde(rename = "zz")] pub a: (u8, String) }', arr(['N', 'S'])); transparent('struct NAME { pub a: std::collections::BTreeMap<String, u8> }', 'M(&N)'); transparent('struct NAME { pub a: Option<Leaf> }', f'Opt(&{LEAF})')
PROXY = [('u8', 'N'), ('String', 'S'), ('Leaf', LEAF), ('(u8, String)', arr(['N', 'S'])), ('Vec<u8>', 'L(&N)'), ('Both', obj([('l', LEAF), ('n', 'N')])), ('Tagged', None)]
TAGGED = [obj([('t', 'Lit("A")'), ('v', 'N')]), obj([('t', 'Lit("B")')])]
for ty, tm in PROXY:
    for conv in ('from', 'try_from'):
        for body in ('struct NAME { pub a: u8, pub b: String }', 'struct NAME(pub u8);', 'struct NAME(pub u8, pub String);', 'enum NAME { A(u8), B { x: String } }'):
            if (ty, conv) != ('Leaf', 'try_from') and ty != 'u8' and not body.startswith('struct NAME {') and not (ty == 'Both' and conv == 'from'): continue
            name = fresh('C')
            decl(name, body.replace('NAME', name), f'{conv} = "{ty}"')
            val = {'struct NAME { pub a: u8, pub b: String }': f'{name} {{ a: 0, b: String::new() }}', 'struct NAME(pub u8);': f'{name}(0)', 'struct NAME(pub u8, pub String);': f'{name}(0, String::new())'}.get(body, f'{name}::A(0)')
            w(f'impl From<{ty}> for {name} {{ fn from(_: {ty}) -> Self {{ {val} }} }}')
            case(name, 'wrapped', TAGGED if tm is None else [tm], ['t', 'v', 'l'])

# ---- enums
def fields(fs, rule, allow_default=True):
    body, tms, names = [], [], []
    for f, ident in zip(fs, IDENTS):
        key = f.key or field_rule(rule, ident)
        body.append((f'#[serde({f.attrs})] ' if f.attrs else '') + f'{ident}: {f.ty}')
        names += [ident, key]
        if f.read: tms.append((key, f'D(&{f.tm})' if f.default else f.tm))
    return ', '.join(body), tms, names
NF = {f.name: f for f in FIELDS}
# variants: kind, attributes of the variant, key, read?
class V:
    def __init__(s, body, attrs='', key=None, read=True, kind='unit', tm=None, rule=None, names=(), notag=False, internal=True): s.body, s.attrs, s.key, s.read, s.kind, s.tm, s.names, s.internal = body, attrs, key, read, kind, tm, list(names), internal
def sv(fs, attrs='', rule=None, key=None, read=True):
    b, tms, names = fields([NF[f] for f in fs], rule)
    return V('{ ' + b + ' }', attrs, key, read, 'struct', tms, names=names)
VARS = [
    V(''), V('', 'rename = "u_n"', key='u_n'), V('', 'skip', read=False), V('', 'skip_deserializing', read=False), V('', 'skip_serializing'), V('', 'rename(deserialize = "ud", serialize = "us")', key='ud'),
    V('(Leaf)', kind='newtype', tm=LEAF), V('(Leaf)', 'rename = "n_l"', key='n_l', kind='newtype', tm=LEAF), V('(Box<Leaf>)', kind='newtype', tm=LEAF),
    V('(u8)', kind='newtype', tm='N', internal=False), V('(Vec<Leaf>)', kind='newtype', tm=f'L(&{LEAF})', internal=False), V('(Two)', kind='newtype', tm='R(&' + obj([('x', 'N'), ('y', 'S')]) + ')'),
    V('(u8, String)', kind='tuple', tm=arr(['N', 'S']), internal=False), V('(u8, #[serde(skip)] bool)', kind='tuple', tm=arr(['N']), internal=False), V('(#[serde(skip)] bool, u8, String)', kind='tuple', tm=arr(['N', 'S']), internal=False),
    V('(u8, #[serde(default)] u8)', kind='tuple', tm=arr(['N', 'D(&N)']), internal=False), V('(u8, Leaf, String)', 'rename = "t_3"', key='t_3', kind='tuple', tm=arr(['N', LEAF, 'S']), internal=False), V('(#[serde(skip_serializing)] u8, #[serde(default = "some")] u8)', kind='tuple', tm=arr(['N', 'D(&N)']), internal=False),
    sv(['plain']), sv(['plain', 'rend']), sv(['skipser', 'defp']), sv(['ren', 'def']), sv(['skip', 'plain']), sv(['skipde']), sv(['opt', 'named']), sv(['plain', 'rens'], 'rename_all = "camelCase"', 'camelCase'), sv(['plain', 'renb', 'vec'], 'rename = "s_v", rename_all(deserialize = "UPPERCASE")', 'UPPERCASE', 's_v'), sv(['odd', 'rendef']), sv(['plain'], 'skip', read=False), sv([]),
    V('(u8, String)', 'skip_deserializing', read=False, kind='tuple', internal=False),
]
VN = ['One', 'TwoWords', 'ThirdABC']
REPR = [('ext', ''), ('int', 'tag = "t"'), ('int', 'tag = "kind of"'), ('adj', 'tag = "t", content = "c"'), ('adj', 'tag = "@", content = "value"'), ('unt', 'untagged')]
ECONT = [None] + RULES + ['de', 'rename']
def enum(rep, cont, vs):
    kind, rattr = rep
    vs = [v for v in vs if kind != 'int' or v.internal]
    if not any(v.read for v in vs): return
    name = fresh('E')
    rule = cont if cont in RULES else 'SCREAMING-KEBAB-CASE' if cont == 'de' else None
    attrs = [rattr] if rattr else []
    if cont in RULES: attrs.append(f'rename_all = "{cont}"')
    if cont == 'de': attrs.append('rename_all(deserialize = "SCREAMING-KEBAB-CASE")')
    if cont == 'rename': attrs.append(f'rename = "Other_{name}"')
    tag = {'tag = "t"': 't', 'tag = "kind of"': 'kind of', 'tag = "t", content = "c"': 't', 'tag = "@", content = "value"': '@'}.get(rattr)
    content = {'tag = "t", content = "c"': 'c', 'tag = "@", content = "value"': 'value'}.get(rattr)
    body, docs, names, keys = [], [], [tag, content], set()
    for v, vn in zip(vs, VN):
        key = v.key or variant_rule(rule, vn)
        names += [vn, key] + v.names
        body.append((f'#[serde({v.attrs})] ' if v.attrs else '') + vn + ' ' + v.body)
        if not v.read: continue
        if key in keys: return
        keys.add(key)
        inner = obj(v.tm) if v.kind == 'struct' else v.tm
        L = f'Lit({lit(key)})'
        if kind == 'ext': docs.append(L if v.kind == 'unit' else xobj([(key, inner)]))
        elif kind == 'adj': docs.append(xobj([(tag, L)] + ([] if v.kind == 'unit' else [(content, inner)])))
        elif kind == 'unt': docs.append('Null' if v.kind == 'unit' else inner)
        elif v.kind == 'unit': docs.append(obj([(tag, L)]))
        elif v.kind == 'struct': docs.append(obj([(tag, L)] + v.tm))
        else: docs.append(inner[3:-1].replace('O(&[', f'O(&[({lit(tag)}, {L}), ', 1))
    newtype = kind == 'int' and any(v.read and v.kind == 'newtype' for v in vs)
    decl(name, f'enum {name} {{ {", ".join(body)} }}', ', '.join(attrs))
    case(name, 'enum', docs, names, tag=tag if tag and not newtype and len(docs) > 1 else None, refname=f'Other_{name}' if cont == 'rename' else None)
def threes(vs, off):
    vs = [vs[(i * 7 + off) % len(vs)] for i in range(len(vs))] if len(vs) % 7 else vs[off % len(vs):] + vs[:off % len(vs)]
    vs += vs[:-len(vs) % 3]
    return [vs[k:k + 3] for k in range(0, len(vs), 3)]
for ri, rep in enumerate(REPR): # every variant under every representation
    vs = [v for v in VARS if rep[0] != 'int' or v.internal]
    for k, t in enumerate(threes(vs, ri * 5)): enum(rep, ECONT[(ri * 3 + k) % len(ECONT)], t)
for ci, c in enumerate(ECONT): # every variant under every container attribute
    for k, t in enumerate(threes(VARS, ci * 3 + 1)): enum(REPR[(ci + k) % len(REPR)], c, t) if c in ('camelCase', 'SCREAMING_SNAKE_CASE', 'kebab-case', 'de') else None
for i in range(len(VARS)): enum(REPR[i % len(REPR)], None, [VARS[i]]); enum(REPR[(i + 3) % len(REPR)], None, [VARS[i]])

w('pub static CASES: &[(u8, Case)] = &[')
K = {'named': 0, 'tuple': 1, 'wrapped': 2, 'enum': 3}
for k, c in cases: w(f'({K[k]}, {c}),')
w('];')
open(sys.argv[1], 'w').write('\n'.join(out) + '\n')
print(len(cases), {k: sum(1 for c in cases if c[0] == k) for k in K})
