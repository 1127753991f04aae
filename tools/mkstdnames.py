#!/usr/bin/env python3
"""Writes spec/StdNames.tla: the 258 Macintosh glyph names, the 391 CFF standard strings and the Mac OS Roman characters.
The names were transcribed once from the tables of the format documents; the file is committed and not regenerated by the checks."""
import re
src = open('/repo/sfnt_data.go').read()


def arr(name):
    m = re.search(r'%s\b[^{]*\{(.*?)\n\}' % name, src, re.S)
    return re.findall(r'"([^"]*)"', m.group(1))


def tla(names):
    return '<<\n' + ',\n'.join('  ' + '<<' + ', '.join(str(ord(c)) for c in n) + '>>' for n in names) + ' >>'


mac, std = arr('macintoshGlyphNames'), arr('cffStandardStrings')
assert len(mac) == 258 and len(std) == 391, (len(mac), len(std))
roman = [ord(bytes([i]).decode('mac_roman')) for i in range(128, 256)]
with open('/verif/spec/StdNames.tla', 'w') as f:
    f.write('------------------------------ MODULE StdNames ------------------------------\n')
    f.write('(* Glyph names 0..257 of the Macintosh order, CFF standard strings 0..390,   *)\n(* all as bytes, and the characters 128..255 of Mac OS Roman.               *)\n')
    f.write('MacNames == ' + tla(mac) + '\n\nCffStrings == ' + tla(std) + '\n\nMacRoman == <<' + ', '.join(map(str, roman)) + '>>\n')
    f.write('=' * 77 + '\n')
