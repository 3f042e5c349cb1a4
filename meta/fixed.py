"""writes the 'fixed:' lines of known_findings.txt from the fix commits of /repo"""
import subprocess, os
M = '''82d95a6 P05
6d65173 P02
c937871 P02
851aad4 P02
339042a P02
cf23997 P09
65e19af P17
f16ed22 P17
9c9f73d P04
ce930d8 P06
99ee6f1 P17
c507fa8 P25
8ab8309 P01
4db5d1f P17
2299cef P20
0bcfc94 P31
9b53778 P31
14957b4 P13
73284ea P17
eb63de9 P17
0c2d4db P22
621687d P25
e9e65ea P05
cb33768 P06
acc03bb P17
e33134f P25
49ee5d1 P06
3604958 P17
5e46b63 P17
c49dbf1 P17
7fdbab3 P17
31aee5c P17
dcb81e5 P17
2d33c6a P17
f567674 P17
972286c P17
7b5f04a P17
991f1dc P17
8b1de82 P17
6661c22 P01
6789ee1 P03
b738f14 P14
04b8e18 P14
6c0b13e P05
0bd65d5 P17
fd76618 P06
a315bcf P17
2643a2b P17
04a60be P09
33f06a7 P17
3274c44 P09
5a07436 P09
1f9e7a8 P33
70641ef P31
a2b3d70 P17
2fff2bf P17'''
P = dict(l.split() for l in M.split('\n'))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).strip().split('\n')
out = ['fixed: property=%s %s %s' % (P.get(l.split()[0], '?'), l.split()[0], l.split(' ', 2)[2]) for l in log if l.split(' ', 1)[1].startswith('fix:')]
p = os.path.join(here, 'known_findings.txt')
keep = [l for l in open(p).read().split('\n') if not l.startswith('fixed:')] if os.path.exists(p) else []
open(p, 'w').write('\n'.join([l for l in keep if l.strip()] + out) + '\n')
for l in out:
    if 'property=?' in l: print(l)
