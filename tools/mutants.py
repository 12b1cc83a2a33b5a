#!/usr/bin/env python3
"""mutants.py OUTDIR: small mechanical changes of /repo's code, one patch each, of those that compile (development aid)."""
import difflib, os, re, subprocess, sys, json
REPO = '/repo'
out = sys.argv[1]
files = subprocess.run(['git', '-C', REPO, 'ls-files', 'src'], capture_output=True, text=True).stdout.split()
SUB = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' % ', ' / '),
       (r'\bLess\b', 'Greater'), (r'\bGreater\b', 'Less'), (r'\bEqual\b', 'Less'), (r'(?<=[\(\s])!(?=[\w(])', ''), (r'\bis_none\b', 'is_some'), (r'\bis_some\b', 'is_none'),
       (r'\bis_ok\b', 'is_err'), (r'\bis_err\b', 'is_ok'), (r'\.id\(\)', '.id()'), (r'&a\b', '&b'), (r'&b\b', '&a'), (r'\ba\.', 'b.'), (r'\bb\.', 'a.'), (r'\(a, b\)', '(b, a)'), (r'\[a, b\]', '[b, a]'),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bMAX\b', 'MIN'), (r'\bpush_back\b', 'push_front'), (r'\bpop_front\b', 'pop_back'), (r'\bfront_mut\b', 'back_mut'),
       (r'(?<![\w.\"])(\d+)(?![\w.\"])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.\"])([1-9]\d*)(?![\w.\"])', lambda m: str(int(m.group(1)) - 1)),
       (r'\bif (?!let)([^{]+) \{', 'if true {'), (r'\bif (?!let)([^{]+) \{', 'if false {'), (r'\bwhile (?!let)([^{]+) \{', 'while false {'),
       (r'Some\(', 'None.or(Some('), (r'\bnext_no_adv\(\)', 'next()'), (r'\bOk\(true\)', 'Ok(false)'), (r'\bOk\(false\)', 'Ok(true)'), (r'\badvance\b', '!advance'),
       (r'\bwrapping_add\b', 'wrapping_sub'), (r'\bchecked_sub\b', 'checked_add'), (r'\bsaturating_sub\b', 'wrapping_sub'), (r'\bu16\b', 'u8'), (r'\bi32\b', 'i16'), (r'\bu64\b', 'u32'),
       (r'\?;', '.ok();'), (r'\bclone\(\)', 'clone().clone()'), (r'\bself\.0\b', 'Default::default()'), (r'\bset\(', 'replace('), (r'return ', 'let _r = '), (r'\bunwrap_or\b', 'and'), (r'\bmap\(', 'and_then(')]

def code_lines(text):
    """Indexes of lines that are code outside of tests and comments."""
    lines, skip, depth, outl = text.split('\n'), None, 0, []
    pend = False
    for i, l in enumerate(lines):
        s = l.strip()
        opens = l.count('{') - l.count('}')
        if skip is None and re.match(r'#\[cfg\(.*\btest\b', s):
            pend = True
        if pend and '{' in l and skip is None:
            skip = depth
            pend = False
        depth += opens
        if skip is not None:
            if depth <= skip:
                skip = None
            continue
        if s.startswith(('//', '#[', '#!', 'use ', '*', 'pub use')) or not s:
            continue
        outl.append(i)
    return lines, outl

seen, n = set(), 0
for f in files:
    if not f.endswith('.rs') or 'anticipated.rs' in f and 'like' not in f:
        continue
    text = open(os.path.join(REPO, f)).read()
    lines, idx = code_lines(text)
    for i in idx:
        l = lines[i]
        code = l.split('//')[0]
        vs = []
        for pat, rep in SUB:
            for m in re.finditer(pat, code):
                r = m.expand(rep) if isinstance(rep, str) else rep(m)
                vs.append(code[:m.start()] + r + code[m.end():])
        s = code.strip()
        if s.endswith(';') and not s.startswith(('let ', 'const ', 'type ', 'pub const', 'pub type', 'return', 'type')) and '}' not in s:
            vs.append('')
        for v in vs:
            if v == l or (f, i, v) in seen:
                continue
            seen.add((f, i, v))
            new = lines[:i] + [v] + lines[i + 1:]
            d = ''.join(difflib.unified_diff([x + '\n' for x in lines[:-1]], [x + '\n' for x in new[:-1]], 'a/' + f, 'b/' + f))
            os.makedirs('%s/%04d' % (out, n), exist_ok=True)
            with open('%s/%04d/patch.diff' % (out, n), 'w') as h:
                h.write(d)
            n += 1
print(n)
