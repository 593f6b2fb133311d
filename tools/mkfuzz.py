#!/usr/bin/env python3
"""Write harness/src/api.rs: one random call for each public method, made from
the signatures in /repo/src. Run by hand when the public API grows; the result
is committed."""
import re, glob, sys

SIGS, ENUMS = [], {}
for f in sorted(glob.glob('/repo/src/*.rs')):
    if f.endswith('test_functions.rs'):
        continue
    L = open(f).read().split('\n')
    impl, attrs, i = None, [], 0
    while i < len(L):
        l = L[i]
        if l.startswith('impl'):
            s, j = l, i
            while '{' not in s:
                j += 1
                s += ' ' + L[j].strip()
            m = re.match(r'impl(<.*?>)?\s+(.*?)\s*(where.*)?\{', s)
            impl = m.group(2)
            attrs = []
        elif l.startswith('}'):
            impl = None
        elif re.match(r'\s*#\[', l):
            attrs.append(l.strip())
        elif re.match(r'\s*//', l):
            pass
        elif re.match(r'    pub fn ', l) and impl:
            s, j = l.strip(), i
            while '{' not in s:
                j += 1
                s += ' ' + L[j].strip()
            s = s[:s.index('{')].strip()
            if not any('hidden' in a or 'wasm' in a for a in attrs):
                SIGS.append((impl, s))
            attrs = []
        elif l.startswith('pub enum '):
            m = re.match(r'pub enum (\w+)(<.*>)?', l)
            vs, j = [], i + 1
            while not L[j].startswith('}'):
                v = L[j].strip()
                mm = re.match(r'(\w+)(\(.*\))?,?$', v)
                if mm and not v.startswith('//') and not v.startswith('#'):
                    vs.append((mm.group(1), mm.group(2)))
                j += 1
            if not m.group(2):
                ENUMS[m.group(1)] = vs
            attrs = []
        elif l.strip():
            attrs = []
        i += 1


def split(ps):
    d, cur, out = 0, '', []
    for ch in ps:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


METHODS, CTORS = {}, {}
SKIP_TYPES = {'IgnoreError', 'Drawing', 'Metadata', 'Vml', 'UnixTime', 'FilterData', 'CustomSerializeField', 'SerializeFieldOptions'}
HAND = {
    ('Workbook', 'new'), ('Worksheet', 'new'), ('Workbook', 'push_worksheet'), ('Workbook', 'save_to_writer'),
    ('Worksheet', 'serialize'), ('Worksheet', 'serialize_headers'), ('Worksheet', 'serialize_headers_with_format'),
    ('Worksheet', 'serialize_headers_with_options'), ('Worksheet', 'deserialize_headers'),
    ('Worksheet', 'deserialize_headers_with_format'), ('Worksheet', 'deserialize_headers_with_options'),
    ('Worksheet', 'set_serialize_headers'), ('Workbook', 'worksheets_mut'), ('Workbook', 'worksheets'),
    ('Workbook', 'new_worksheet_with_constant_memory'), ('Workbook', 'new_worksheet_with_low_memory'),
    ('ChartFormat', 'new'),
    # For reading and writing files made by other programs.
    ('Workbook', 'populate_string_table'), ('Worksheet', 'insert_string_with_index'),
}
# These write every cell of the range.
FILL = {'merge_range', 'write_array_formula', 'write_array_formula_with_format', 'write_dynamic_array_formula',
        'write_dynamic_array_formula_with_format', 'set_range_format', 'set_range_format_with_border',
        'add_table', 'add_sparkline_group'}
for impl, s in SIGS:
    m = re.match(r"pub fn (\w+)(<.*?>)?\((.*)\)\s*(->\s*(.*?))?\s*(where.*)?$", s)
    if not m:
        print('??', s, file=sys.stderr)
        continue
    name, gen, ps, ret, where = m.group(1), m.group(2) or '', split(m.group(3)), m.group(5) or '', m.group(6) or ''
    if impl in SKIP_TYPES or (impl, name) in HAND:
        continue
    b = gen + ' ' + where
    if ps and re.match(r"(&('\w+ )?)?(mut )?self$", ps[0]):
        METHODS.setdefault(impl, []).append((name, ps[0], ps[1:], ret, b))
    else:
        CTORS.setdefault(impl, []).append((name, ps, ret, b))

TYPES = sorted(set(METHODS) | set(CTORS) | {'ChartFormat'})
STRUCTS = set(TYPES)


def arg(p, t, bound):
    """(statements before, expression) for a parameter."""
    if t in ('RowNum',):
        return f'g.row()'
    if t == 'ColNum':
        return 'g.col()'
    if t in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32', 'u64', 'i64', 'usize', 'bool', 'f64', 'char'):
        if t == 'u8' and 'level' in p:
            return 'g.u8()'
        return f'g.{t}()'
    if t in ('impl Into<String>', 'impl AsRef<str>'):
        return 'g.string(%s)' % kind(p)
    if t == '&str':
        return '&g.string(%s)' % kind(p)
    if t == 'impl Into<Color>':
        return 'g.color()'
    if t in ('&[impl Into<Color> + Copy]',):
        return '&g.list(|g| g.color())'
    if t in ('impl Into<f64>',):
        return 'g.f64()'
    if t == 'impl Into<Formula>' or t == 'Formula':
        return 'g_formula(g)'
    if t == 'impl Into<Url>':
        return 'g_url(g)'
    if t == 'impl Into<Format>':
        return 'g_format(g)'
    if t == 'impl Into<Table>':
        return 'g_table(g)'
    if t == 'impl Into<ConditionalFormatValue>':
        return 'g.cf_value()'
    if t in ('impl IntoExcelDateTime', 'impl IntoCustomDateTimeUtc'):
        return '&g.date()'
    if t == 'impl IntoCustomProperty':
        return 'g.string(0).as_str()'
    if t == 'impl IntoExcelData':
        return 'g.string(0)'
    if t == 'DataValidationRule<Formula>':
        return 'g.dv_rule(g_formula)'
    if t == 'DataValidationRule<impl IntoExcelDateTime + IntoDataValidationValue>':
        return 'g.dv_rule(|g| g.date())'
    if t == 'DataValidationRule<i32>':
        return 'g.dv_rule(|g| g.i32())'
    if t == 'DataValidationRule<u32>':
        return 'g.dv_rule(|g| g.u32())'
    if t == 'DataValidationRule<f64>':
        return 'g.dv_rule(|g| g.f64())'
    if t == '&[impl AsRef<str>]':
        return '&g.list(|g| g.string(0))'
    if t == '&[usize]':
        return '&g.list(|g| g.usize())'
    if t in ('&[RowNum]', '&[u32]'):
        return '&g.list(|g| g.row())'
    if t == '&[u8]':
        return '&g.bytes()'
    if t == '&[(&Format, &str)]':
        return None
    if t == 'ConditionalFormatCellRule<T>':
        return 'g.cell_rule()'
    if t == 'T' and 'IntoChartFormat' in bound:
        return 'g_chart_format(g).as_mut()'
    if t == 'T' and 'IntoShapeFormat' in bound:
        return '&g_shape_format(g)'
    if t == 'T' and 'IntoChartRange' in bound:
        return 'g.range().as_str()'
    if t == 'T' and 'Into<f64>' in bound:
        return 'g.f64()'
    if t == 'T' and 'IntoFilterData' in bound:
        return 'g.string(0).as_str()'
    if t == 'T' and 'IntoExcelData' in bound:
        return 'g.string(0)'
    if t == 'I' and 'IntoIterator<Item = II>' in bound:
        return 'g.list(|g| g.list(|g| g.f64()))'
    if t == 'I':
        return 'g.list(|g| g.string(0))'
    if t == 'P':
        return 'g.path()'
    if t in ENUMS:
        return f'g_{snake(t)}(g)'
    m = re.match(r'&\[(\w+)\]$', t)
    if m and m.group(1) in STRUCTS:
        return f'&g.list(g_{snake(m.group(1))})'
    m = re.match(r'&(\w+)$', t)
    if m and m.group(1) in STRUCTS:
        return f'&g_{snake(m.group(1))}(g)'
    if t in STRUCTS:
        return f'g_{snake(t)}(g)'
    return None


def kind(p):
    for k, w in ((1, ('range', 'cell')), (2, ('formula',)), (3, ('name',)), (4, ('url', 'link')), (5, ('num_format',))):
        if any(x in p for x in w):
            return k
    return 0


def snake(t):
    t = t.replace('2Color', '2_color').replace('3Color', '3_color')
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', t).lower()


out = []
P = out.append
P('''//! One random call for each public method (made by tools/mkfuzz.py).
#![allow(clippy::all, unused)]

use crate::hostile::G;
use rust_xlsxwriter::*;
''')
skipped = []


def emit_args(ps, bound, fill=False):
    pre, names = [], []
    dims = [i for i, p in enumerate(ps) if p.split(':')[1].strip() in ('RowNum', 'ColNum')]
    joint = len(dims) == 4
    if joint:
        pre.append('let (r0, c0, r1, c1) = g.%s();' % ('small' if fill else 'range4'))
    for i, p in enumerate(ps):
        n, t = [x.strip() for x in p.split(':', 1)]
        if joint and i in dims:
            names.append(['r0', 'c0', 'r1', 'c1'][dims.index(i)])
            continue
        a = arg(n, t, bound)
        if a is None:
            return None
        if t == 'T' and 'ConditionalFormat ' in bound:
            return None
        amp = ''
        if a.endswith('.as_str()'):
            pre.append(f'let a{i} = {a[:-9]};')
            names.append(f'a{i}.as_str()')
        elif a.endswith('.as_mut()'):
            pre.append(f'let mut a{i} = {a[:-9]};')
            names.append(f'&mut a{i}')
        elif a.startswith('&'):
            pre.append(f'let a{i} = {a[1:]};')
            names.append(f'&a{i}')
        else:
            pre.append(f'let a{i} = {a};')
            names.append(f'a{i}')
    return pre, names


def base(t):
    m = re.match(r'Result<(.*), XlsxError>$', t)
    return (m.group(1), True) if m else (t, False)


for t in TYPES:
    sn = snake(t)
    # Constructors.
    if t not in ('Workbook', 'Worksheet'):
        arms = []
        if t == 'ChartFormat':
            arms.append('_ => ChartFormat::new(),')
        others = []
        for name, ps, ret, b in CTORS.get(t, []):
            r, res = base(ret)
            if r not in (t, 'Self'):
                continue
            e = emit_args(ps, b)
            if e is None:
                skipped.append((t, name))
                continue
            pre, names = e
            call = f'{t}::{name}({", ".join(names)})'
            if res:
                others.append((name, pre, call))
            else:
                arms.append((name, pre, call))
        # Some are only reached through their owner.
        goto = not arms and t not in ('Image', 'ExcelDateTime')
        if not goto:
            P(f'pub fn g_{sn}(g: &mut G) -> {t} {{')
        body = [a for a in arms if isinstance(a, tuple)]
        fallback = None
        if goto:
            pass
        elif t == 'ChartFormat':
            P('    let mut x = ChartFormat::new();')
        elif t == 'Image':
            P('    let mut x = g.image();')
        elif t == 'ExcelDateTime':
            P('    let mut x = g.date();')
        else:
            P(f'    let mut x = match g.below({len(body)}) {{')
            for i, (name, pre, call) in enumerate(body):
                k = str(i) if i < len(body) - 1 else '_'
                P(f'        {k} => {{ {" ".join(pre)} g.call("{t}::{name}"); {call} }}')
            P('    };')
        for name, pre, call in [] if goto else others:
            P(f'    if g.one_in({3 * len(others)}) {{ {" ".join(pre)} g.call("{t}::{name}"); if let Ok(y) = {call} {{ x = y; }} }}')
        if not goto:
            P(f'    g.deeper(|g, n| for _ in 0..n {{ m_{sn}(g, &mut x); }});')
            P('    x\n}\n')
    ms = METHODS.get(t, [])
    P(f'pub fn m_{sn}(g: &mut G, x: &mut {t}) {{')
    arms = []
    for name, selfp, ps, ret, b in ms:
        e = emit_args(ps, b, name in FILL)
        if e is None:
            if (t, name) not in (('Worksheet', 'add_conditional_format'),):
                skipped.append((t, name))
            continue
        pre, names = e
        r, res = base(ret)
        call = f'{name}({", ".join(names)})'
        pre = ' '.join(pre) + f' g.call("{t}::{name}");'
        if selfp == 'mut self' or selfp == 'self':
            if res:
                s = f'{pre} if let Ok(y) = x.clone().{call} {{ *x = y; }}'
            else:
                s = f'{pre} *x = x.clone().{call};'
        else:
            m = re.match(r"&('\w+ )?mut (\w+)$", r)
            if m and m.group(2) != t and m.group(2) in STRUCTS:
                if res:
                    s = f'{pre} if let Ok(y) = x.{call} {{ m_{snake(m.group(2))}(g, y); }}'
                else:
                    s = f'{pre} let y = x.{call}; m_{snake(m.group(2))}(g, y);'
            else:
                s = f'{pre} let ok = x.{call}.is_ok(); g.result(ok);' if res else f'{pre} let _ = x.{call};'
        arms.append(s)
    if t == 'Worksheet':
        arms.append('crate::hostile::worksheet_more(g, x);')
        arms.append('crate::hostile::add_conditional_format(g, x);')
        arms.append('crate::hostile::add_conditional_format(g, x);')
    if t == 'Workbook':
        arms.append('crate::hostile::workbook_more(g, x);')
    if arms:
        P(f'    match g.below({len(arms)}) {{')
        for i, s in enumerate(arms):
            k = str(i) if i < len(arms) - 1 else '_'
            P(f'        {k} => {{ {s} }}')
        P('    }')
    P('}\n')

USED = set(re.findall(r'g_(\w+)\(g\)|g_(\w+)\b', '\n'.join(out)))
for e, vs in sorted(ENUMS.items()):
    sn = snake(e)
    if not re.search(rf'\bg_{sn}\b', '\n'.join(out)) or e in STRUCTS:
        continue
    P(f'pub fn g_{sn}(g: &mut G) -> {e} {{')
    arms = []
    for v, tup in vs:
        if tup:
            ts = [x.strip() for x in tup.strip('()').split(',')]
            args = []
            for x in ts:
                a = arg('', x, '')
                if a is None and x == 'String':
                    a = 'g.string(0)'
                args.append(a)
            if any(a is None for a in args):
                skipped.append((e, v))
                continue
            arms.append(f'{e}::{v}({", ".join(args)})')
        else:
            arms.append(f'{e}::{v}')
    P(f'    match g.below({len(arms)}) {{')
    for i, s in enumerate(arms):
        P(f'        {i if i < len(arms)-1 else "_"} => {s},')
    P('    }\n}\n')
P(f'/// All (type, method) pairs above.\npub const METHODS: usize = {sum(len(v) for v in METHODS.values())};')
open('/verif/harness/src/api.rs', 'w').write('\n'.join(out) + '\n')
print('skipped', skipped)
