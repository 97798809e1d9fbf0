#!/usr/bin/env python3
"""Generates sim/iso6937_ref.inc: ISO/IEC 6937 as profiled by EBU Tech 3264 Appendix 2,
built from the standard's layout and Unicode's canonical compositions (not from libsub)."""
import unicodedata, os
main = {}
for c in range(0x20, 0x7f): main[c] = c
del main[0x24]  # dollar or currency sign: editions differ, so not used by the models
hi = {0xa1:0xa1,0xa2:0xa2,0xa3:0xa3,0xa4:0x24,0xa5:0xa5,0xa7:0xa7,0xa8:0xa4,0xa9:0x2018,0xaa:0x201c,
 0xab:0xab,0xac:0x2190,0xad:0x2191,0xae:0x2192,0xaf:0x2193,0xb0:0xb0,0xb1:0xb1,0xb2:0xb2,0xb3:0xb3,0xb4:0xd7,0xb5:0xb5,
 0xb6:0xb6,0xb7:0xb7,0xb8:0xf7,0xb9:0x2019,0xba:0x201d,0xbb:0xbb,0xbc:0xbc,0xbd:0xbd,0xbe:0xbe,0xbf:0xbf,
 0xd0:0x2015,0xd1:0xb9,0xd2:0xae,0xd3:0xa9,0xd4:0x2122,0xd5:0x266a,0xd6:0xac,0xd7:0xa6,0xdc:0x215b,0xdd:0x215c,0xde:0x215d,0xdf:0x215e,
 0xe0:0x2126,0xe1:0xc6,0xe2:0x110,0xe3:0xaa,0xe4:0x126,0xe6:0x132,0xe7:0x13f,0xe8:0x141,0xe9:0xd8,0xea:0x152,0xeb:0xba,0xec:0xde,0xed:0x166,0xee:0x14a,0xef:0x149,
 0xf0:0x138,0xf1:0xe6,0xf2:0x111,0xf3:0xf0,0xf4:0x127,0xf5:0x131,0xf6:0x133,0xf7:0x140,0xf8:0x142,0xf9:0xf8,0xfa:0x153,0xfb:0xdf,0xfc:0xfe,0xfd:0x167,0xfe:0x14b,0xff:0xad}
main.update(hi)
dia = {0xc1:(0x300,'AEIOUaeiou'),0xc2:(0x301,'ACEILNORSUYZacegilnorsuyz'),0xc3:(0x302,'ACEGHIJOSUWYaceghijosuwy'),
 0xc4:(0x303,'AINOUainou'),0xc5:(0x304,'AEIOUaeiou'),0xc6:(0x306,'AGUagu'),0xc7:(0x307,'CEGIZcegz'),0xc8:(0x308,'AEIOUYaeiouy'),
 0xca:(0x30a,'AUau'),0xcb:(0x327,'CGKLNRSTcklnrst'),0xcd:(0x30b,'OUou'),0xce:(0x328,'AEIUaeiu'),0xcf:(0x30c,'CDELNRSTZcdelnrstz')}
out = []
for c in sorted(main): out.append((0, c, main[c]))
for d,(comb,letters) in sorted(dia.items()):
    for l in letters:
        s = unicodedata.normalize('NFC', l + chr(comb))
        assert len(s) == 1, (hex(d), l)
        out.append((d, ord(l), ord(s)))
if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'iso6937_ref.inc')
    with open(p, 'w') as f:
        f.write('// generated by tools/gen_iso6937.py: {diacritical or 0, code, Unicode}\n')
        for d,c,u in out: f.write('{0x%02x,0x%02x,0x%04x},\n' % (d,c,u))
