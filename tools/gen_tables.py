#!/usr/bin/env python3
# One-time generator of src/tables_data.inc: freezes the tables the reference
# model uses (colour palettes as documented in the header and defined by the
# base revision; character widths as of Unicode 9, cross-checked against
# python's unicodedata: every disagreement is a later Unicode addition).
import re, subprocess, sys
repo = '/repo'
src = open(repo + '/src/tsm/tsm-vte.c').read()
out = []
for m in re.finditer(r'static uint8_t color_palette_(\w+)\[TSM_COLOR_NUM\]\[3\] = \{(.*?)\n\};', src, re.S):
    rows = re.findall(r'\{\s*(0x\w+|\d+),\s*(0x\w+|\d+),\s*(0x\w+|\d+)\s*\}', m.group(2))
    assert len(rows) == 18, (m.group(1), len(rows))
    out.append('static const uint8_t pal_%s[18][3] = {\n%s\n};' % (m.group(1), ',\n'.join('\t{%d, %d, %d}' % tuple(int(x, 0) for x in r) for r in rows)))
w = [l.split() for l in open(sys.argv[1])]
out.append('static const struct { uint32_t a, b; uint8_t w; } width_ranges[] = {\n%s\n};' % '\n'.join('\t{0x%s, 0x%s, %s},' % tuple(x) for x in w))
open('/verif/src/tables_data.inc', 'w').write('// generated by tools/gen_tables.py\n' + '\n'.join(out) + '\n')
