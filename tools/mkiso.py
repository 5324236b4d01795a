#!/usr/bin/env python3
"""writes harness/iso.hpp: the ISO Latin alphabets 1-9 from the mapping tables of Python's codecs"""
import os
names=['iso8859-1','iso8859-2','iso8859-3','iso8859-4','iso8859-9','iso8859-10','iso8859-13','iso8859-14','iso8859-15']
out="// generated by tools/mkiso.py from the ISO-8859 mapping tables (Python codecs); 0 = not assigned\n// ISO Latin alphabets 1..9 = ISO-8859 parts 1,2,3,4,9,10,13,14,15\nstatic const unsigned short ISO[9][128] = {\n"
for n in names:
    row=[]
    for b in range(128,256):
        try: row.append(ord(bytes([b]).decode(n)))
        except UnicodeDecodeError: row.append(0)
    out+="{"+",".join(map(str,row))+"},\n"
out+="};\n"
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness','iso.hpp'),'w').write(out)
