"""Stand-in for the optional dependency f90nml (Fortran namelists): read(filename) gives {group: {key: value}}, names in lower case.

Only used where the real module is absent. Scalars and comma/blank separated lists of numbers, logicals and quoted text are understood.
"""
import re


def _value(t):
    t = t.strip()
    if len(t) > 1 and t[0] in '\'"' and t[-1] == t[0]:
        return t[1:-1].replace(t[0] * 2, t[0])
    if t.lower().strip('.') in ('t', 'true'):
        return True
    if t.lower().strip('.') in ('f', 'false'):
        return False
    try:
        return int(t)
    except ValueError:
        return float(re.sub('[dD]', 'e', t))


def read(filename):
    out = {}
    group = None
    with open(filename, errors='surrogateescape') as f:
        for line in f:
            s = re.match(r"""((?:'[^']*'|"[^"]*"|[^!'"])*)""", line.rstrip('\n')).group(1).strip()
            if not s:
                continue
            if s[0] in '&$':
                group = out.setdefault(s[1:].strip().lower(), {})
            elif s == '/' or s.lower() == '&end':
                group = None
            elif group is not None and '=' in s:
                k, v = s.split('=', 1)
                items = re.findall(r"""'[^']*'|"[^"]*"|[^\s,]+""", v)
                group[k.strip().lower()] = _value(items[0]) if len(items) == 1 else [_value(x) for x in items]
    return out
