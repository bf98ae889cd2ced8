"""Parsers for sclite's text reports."""
import re
NUM = re.compile(r'-?\d+(?:\.\d+)?')

def table_rows(txt):
    """rows of '|'-framed tables: list of (label, [numbers as float], raw)"""
    rows = []
    for l in txt.split('\n'):
        s = l.strip()
        if not (s.startswith('|') and s.endswith('|')): continue
        cells = [c.strip() for c in s.strip('|').split('|')]
        if len(cells) < 3: continue
        nums = []
        ok = True
        for c in cells[1:]:
            for w in c.split():
                m = re.fullmatch(r'(-?\d+(?:\.\d+)?|-?nan|-?inf)[*+#]?', w)
                if not m: ok = False; break
                nums.append(float(m.group(1)))
        if ok and nums: rows.append((cells[0], nums, l))
    return rows

def dtl_sections(txt):
    """{'CONFUSION PAIRS': (total, {key:count}), ...}, plus scalar lines"""
    out = {}
    for name in ('CONFUSION PAIRS', 'INSERTIONS', 'DELETIONS', 'SUBSTITUTIONS', 'FALSELY RECOGNIZED'):
        m = re.search(r'^%s\s+Total\s+\((\d+)\)\n\s+With >=\s+(\d+) occurrences \((\d+)\)\n(.*?)(?=^[A-Z* ]{3}[A-Z ]|\Z)' % name, txt, re.M | re.S)
        if not m: continue
        items = {}; order = []
        for k, c, w in re.findall(r'^\s*(\d+):\s+(\d+)\s+->\s+(.*?)\s*$', m.group(4), re.M):
            items[w] = items.get(w, 0) + int(c); order.append((int(k), int(c), w))
        sm = re.search(r'-------\s*\n\s*(\d+)', m.group(4))
        out[name] = dict(total=int(m.group(1)), thresh=int(m.group(2)), nth=int(m.group(3)), items=items, order=order, sum=int(sm.group(1)) if sm else None)
    return out
