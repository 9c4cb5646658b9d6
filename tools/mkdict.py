"""Integers and texts occurring in the source under test, one per line (used as preferred values by the search)."""
import re, sys, glob, os
def mkdict(repo, out):
    ints, texts = set(), set()
    for f in glob.glob(os.path.join(repo, 'stacks/src/**/*.rs'), recursive=True):
        t = open(f, errors='replace').read().split('#[cfg(test)]')[0]
        t = re.sub(r'//[^\n]*', '', t)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)', t):
            s = m.group(1).replace('_', '')
            try: ints.add(int(s, 0) if s[:2] in ('0x', '0b') else int(s))
            except ValueError: pass
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t):
            if '{' not in m.group(1) and '\\' not in m.group(1) and 0 < len(m.group(1)) < 80: texts.add(m.group(1))
        for m in re.finditer(r"b?'(.)'", t):
            ints.add(ord(m.group(1))); texts.add(m.group(1))
    with open(out, 'w') as o:
        for i in sorted(ints):
            if i < 2**128: o.write(f'i {i}\n')
        for s in sorted(texts): o.write(f's {s}\n')
if __name__ == '__main__': mkdict(sys.argv[1], sys.argv[2])
