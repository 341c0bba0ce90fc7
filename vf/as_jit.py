#!/usr/bin/env python3
"""Stands in for `as`: puts a call of vf$jit before every instruction that
accesses memory other than the frame, and before every call."""
import os, re, subprocess, sys, tempfile

MEM = re.compile(r'\(%r(?!sp\b|bp\b|ip\b)|\(%e')
def instrument(text):
    out = []
    code = True
    for line in text.split('\n'):
        s = line.strip()
        if s.startswith('.'):
            m = re.match(r'\.(text|data|bss|section)\b(.*)', s)
            if m:
                code = m.group(1) == 'text' or (m.group(1) == 'section' and '.text' in m.group(2))
        m = re.match(r'(?:[\w.$]+:\s*)?((?:lock\s+|rep\w*\s+)?[a-z]\w*)\b', s)
        op = m.group(1) if m else ''
        if code and op and not s.endswith(':') and not s.startswith(('.', '#', '/')):
            if (op.startswith('call') or MEM.search(s.split('#')[0])) and not op.startswith(('lea', 'nop')) \
                    and 'vf$' not in s and '%fs' not in s:
                lab = re.match(r'([\w.$]+:)\s*(.*)', s)
                if lab:
                    out.append(lab.group(1))
                    s = lab.group(2)
                out.append('\tcallq vf$jit')
                out.append('\t' + s)
                continue
        out.append(line)
    return '\n'.join(out)

def main():
    a = sys.argv[1:]
    src = a[-1]
    real = os.environ.get('VF_AS', '/usr/bin/as')
    t = open(src, encoding='latin1').read()
    # block comments never hold code
    t = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), t, flags=re.S)
    with tempfile.NamedTemporaryFile('w', suffix='.s', delete=False, encoding='latin1') as f:
        f.write(instrument(t))
    try:
        r = subprocess.run([real] + a[:-1] + [f.name]).returncode
    finally:
        os.unlink(f.name)
    sys.exit(r)

if __name__ == '__main__':
    main()
