"""One-time helper (not used by any check): writes the deviation entries of known_findings.json for the rule tables
from the CLDR data and the known generator defects, as readable rule text."""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'analysis'))
import cells, rt as R


def txt(rel):
    op, mod, neg, rs, within = rel
    return '%s%s %s %s' % (op, ' %% %d' % mod if mod else '', '!=' if neg else '=', ','.join(str(a) if a == b else '%d..%d' % (a, b) for a, b in rs))


def deviant(rel):
    """list (or) of list (and) of relation texts"""
    op, mod, neg, rs, within = rel
    if op != 'n' or within: return [[txt(rel)]], False
    parts = []; dev = False
    for a, b in rs:
        if a == b:
            if mod: parts.append(['i %% %d %s %d' % (mod, '!=' if neg else '=', a)]); dev = True
            else: parts.append(['n %s %d' % ('!=' if neg else '=', a)])
        else:
            if mod: parts.append(['i %s %d..%d' % ('!=' if neg else '=', a, b)]); dev = True
            else:
                parts.append(['i %s %d..%d' % ('!=' if neg else '=', a, b), 'f = 0'])
                if neg: dev = True
    if neg: return [sum(parts, [])], dev
    return parts, dev


def dnf(ors):
    out = []; dev = False
    for ands in ors:
        alts = [[]]
        for rel in ands:
            ds, d = deviant(rel); dev |= d
            alts = [x + y for x in alts for y in ds]
        out += [' and '.join(a) for a in alts]
    return ' or '.join(out), dev


known = []
for prt, prop in (('CARDINAL', 'C01'), ('ORDINAL', 'C02')):
    data = R.RT.data(None, prt)
    for loc, rules in data.items():
        if loc == 'root': continue
        d = []; any_ = False; cause = []
        for c in sorted(rules):
            if c == 'other': continue
            t, dv = dnf(cells.parse_rule(rules[c])); any_ |= dv
            d.append([c, t])
            if dv: cause.append('%s: %s' % (c, rules[c].split('@')[0].strip()))
        if any_: known.append({'property': prop, 'id': '%s-%s' % (prt.lower(), loc), 'locale': loc, 'deviant': d, 'cause': "generated code of 'n %% m' relations ignores the fraction or drops the modulus; rules " .replace('%%', '%') + '; '.join(cause)})
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
k = json.load(open(f))
k['known'] = [x for x in k['known'] if x['property'] not in ('C01', 'C02')] + known
json.dump(k, open(f, 'w'), indent=1, ensure_ascii=False)
print(len(known))
