#!/usr/bin/env python3
import json, os, subprocess
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h\t%s'], capture_output=True, text=True).stdout.split('\n')
F = {  # subject fragment -> (property, what failed)
 'sign-extended symbol': ('P01', 'decoding text with a byte above 0x7F indexed the code table with a negative value (out-of-bounds read)'),
 'clear only the missing bytes': ('P01', 'encoding an input whose last block exactly fills the buffer wrote past the end of it'),
 'allow padding in the last Base64 block': ('P01', 'decoding rejected padded text whose length is a multiple of the block size'),
 'do not search replaced text': ('P13', 'replacing a substring by a text that contains it did not terminate'),
 'match every wildcard segment': ('P13', 'wildcard matching accepted overlapping segments and ignored unanchored ends'),
 'negative values as digits': ('P07', 'characters with negative values could be classified as digits'),
 'write only the requested number': ('P02', 'bits of a value above the requested width overwrote earlier bits'),
 'shift by the size of the bit stream buffer': ('P02', 'writing a field that ends exactly at a full buffer shifted by 64 (undefined)'),
 'there are no bits to peek': ('P02', 'peeking with nothing left shifted by the width of the type (undefined)'),
 'Huffman code lengths which exceed': ('P03', 'an over-subscribed table of code lengths wrote outside the prefix table'),
 'discard more bits than are available': ('P03', 'a truncated stream made the decoder discard more bits than exist'),
 'Huffman coder limits cannot represent': ('P03', 'limits too small for the number of symbols produced an undecodable stream'),
 'wrap around when peeking past': ('P08', 'peeking with a huge offset wrapped around and read an earlier character'),
 'truncated numbers when a lexed number': ('P08', 'numbers above 64 bits were silently truncated'),
 'stray separators and void short forms': ('P10', '":1:2:3:4:5:6:7:8", "1:" forms and "::" standing for no group were accepted'),
 'compare signed and unsigned JSON': ('P16', '-1 compared equal to / above 18446744073709551615'),
 'integer literals which exceed the largest': ('P14', 'literals above 64 bits wrapped: 18446744073709551617_u64 was 1'),
 'own the tasks which are posted': ('P22', 'a task posted as a named callable was kept by reference and run after that callable was gone'),
 'join strings with any separator': ('P13', 'joining dropped a separator whose value does not fit a signed char, such as 0xfa'),
 'vertical tabs as JSON whitespace': ('P17', 'a vertical tab between JSON tokens was accepted as whitespace'),
 'comments between JSON object keys': ('P17', 'a comment between an object key and its colon was refused although comments were allowed'),
 'refuse the most negative offset of JSON iterators': ('P18', 'an offset of PTRDIFF_MIN was negated, overflowed, and passed the range check of the iterator'),
 'refuse malformed comments behind commas': ('P17', 'a malformed comment behind a comma was skipped: [true,/{1] was accepted'),
 'leave null JSON values unchanged': ('P18', 'an invalid key or a failing merge turned a null value into an object although it threw'),
 'lone quote in an INI value': ('P19', 'a value that is a single quote was accepted as balanced'),
}
extra = os.path.join(d, 'tools', 'fixes_extra.py')
if os.path.exists(extra):
    exec(open(extra).read())
out = []
n = 0
for l in log:
    if '\t' not in l: continue
    h, s = l.split('\t', 1)
    if not s.startswith('fix:'): continue
    for k, (p, w) in F.items():
        if k in s:
            n += 1
            out.append({'id': 'fixed-' + h, 'property': p, 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (p, h, w)})
            break
    else:
        print('NOT RECORDED', l)
kf = os.path.join(d, 'tools', 'known_extra.json')
if os.path.exists(kf):
    out += json.load(open(kf))
json.dump(out, open(os.path.join(d, 'known-findings.json'), 'w'), indent=1)
print(n, 'fixes recorded')
