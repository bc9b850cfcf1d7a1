#!/usr/bin/env python3
# Writes the reference data in checker/ref from the tables of the tree at /repo.
# Run once when the reference was made (the result was compared with Python's
# unicodedata, see DESIGN.md); the checks only read the committed files.
import re,os
D='/repo/runewidth/uniseg/'
O=os.path.dirname(os.path.abspath(__file__))+'/../checker/ref/'
def tab(f):
    for l in open(D+f):
        m=re.match(r'\s*\{0x([0-9A-Fa-f]+), 0x([0-9A-Fa-f]+), pr(\w+)\}',l)
        if m: yield int(m[1],16),int(m[2],16),m[3]
def merge(it):
    out=[]
    for s,e,c in sorted(it):
        if out and out[-1][2]==c and out[-1][1]+1==s: out[-1][1]=e
        else: out.append([s,e,c])
    return out
def write(n,it):
    with open(O+n,'w') as f:
        for s,e,c in merge(it): f.write('%04X %04X %s\n'%(s,e,c))
write('grapheme.txt',tab('graphemeproperties.go'))
write('wide.txt',((s,e,'W') for s,e,c in tab('eastasianwidth.go') if c in('W','F')))
write('emojipres.txt',((s,e,'P') for s,e,c in tab('emojipresentation.go')))
# code-point widths
src=open('/repo/runewidth/runewidth.go').read()+open('/repo/runewidth/runewidth_table.go').read()
T={}
for n in('private','nonprint','combining','doublewidth','ambiguous','narrow','neutral','emoji'):
    b=re.search(r'var %s = table\{(.*?)\n\}'%n,src,re.S)[1]
    T[n]=set()
    for a,z in re.findall(r'\{0x([0-9A-Fa-f]+), 0x([0-9A-Fa-f]+)\}',b): T[n]|=set(range(int(a,16),int(z,16)+1))
def w(r,ea,strict):
    if not ea:
        if r<0x20 or 0x7f<=r<=0x9f or r==0xad: return 0
        if r<0x300 or r in T['narrow']: return 1
        if r in T['nonprint'] or r in T['combining']: return 0
        return 2 if r in T['doublewidth'] else 1
    if r in T['nonprint'] or r in T['combining']: return 0
    if r in T['narrow']: return 1
    if r in T['ambiguous'] or r in T['doublewidth']: return 2
    if not strict and (r in T['emoji'] or r in T['narrow']): return 2
    return 1
write('width.txt',((r,r,''.join(str(w(r,ea,st)) for ea in(0,1) for st in(0,1))) for r in range(0x110000)))
