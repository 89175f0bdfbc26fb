#!/usr/bin/env python3
"""Writes core/src/tables.rs: charset tables taken from Python's codecs and glibc's iconv (independent of textcode).
Only bytes to which the charset assigns a character are listed; everything else is left out (= unspecified)."""
import subprocess
out = ["// Generated by tools/mktables.py from Python codecs and glibc iconv. Do not edit.\n"]
names = []
for n in [1,2,3,4,5,6,7,8,9,10,11,13,14,15,16]:
    t = []
    for b in range(0xA0, 256):
        try: t.append(ord(bytes([b]).decode(f"iso8859-{n}")))
        except UnicodeDecodeError: t.append(0)
    names.append(n)
    out.append(f"pub static ISO8859_{n}: [u16; 96] = {t};\n")
out.append("pub static ISO8859: [(&str, &[u16; 96]); %d] = [%s];\n" % (len(names), ", ".join(f'("iso-8859-{n}", &ISO8859_{n})' for n in names)))
def iconv(b, cs):
    r = subprocess.run(["iconv", "-f", cs, "-t", "UTF-8"], input=b, capture_output=True)
    if r.returncode != 0: return None
    s = r.stdout.decode()
    return s if len(s) == 1 else None
one, two = [], []
for b in range(0xA0, 256):
    s = iconv(bytes([b]), "ISO_6937"); s2 = iconv(bytes([b]), "ISO_6937-2")
    # 0xD0 and 0xE2 differ between editions of the standard (U+2014/2015, U+00D0/0110): left unspecified
    if s and s == s2 and b not in (0xD0, 0xE2): one.append((b, ord(s)))
for a in range(0xC1, 0xD0):
    for b in range(0x21, 0x7F):  # a diacritic alone (before a space) is left unspecified
        s = iconv(bytes([a, b]), "ISO_6937"); s2 = iconv(bytes([a,b]), "ISO_6937-2")
        # g with cedilla is 0xCB67 or 0xC267 depending on the edition
        if s and s == s2 and (a, b) != (0xCB, 0x67): two.append((a, b, ord(s)))
out.append(f"pub static ISO6937_1: [(u8, u16); {len(one)}] = {one};\n")
out.append(f"pub static ISO6937_2: [(u8, u8, u16); {len(two)}] = {two};\n")
gb = []
for a in range(0xA1, 0xF8):
    for b in range(0xA1, 0xFF):
        try:
            s = bytes([a, b]).decode("gb2312"); gb.append(ord(s) if len(s) == 1 else 0)
        except UnicodeDecodeError: gb.append(0)
out.append(f"/// rows A1..F7, columns A1..FE\npub static GB2312: [u16; {len(gb)}] = {gb};\n")
open("/verif/core/src/tables.rs", "w").write("".join(out))
