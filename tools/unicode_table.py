import unicodedata as U
print(U.unidata_version)
OIS=[0x1885,0x1886,0x2118,0x212E,0x309B,0x309C]
OIC=[0x00B7,0x0387,0x19DA]+list(range(0x1369,0x1372))
PS=lambda c: chr(c) in "!\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~" or c in (0x2E2F,)
start=set();cont=set()
for c in range(0x110000):
    cat=U.category(chr(c))
    if (cat[0]=='L' or cat=='Nl' or c in OIS) and not PS(c): start.add(c)
    if (c in start or cat in('Mn','Mc','Nd','Pc') or c in OIC) and not PS(c): cont.add(c)
us=set();uc=set()
for l in open('unic.txt'):
    a,b,d=l.split(); a=int(a,16)
    if b=='1': us.add(a)
    if d=='1': uc.add(a)
print(len(start),len(us),len(us-start),len(start-us)); print([hex(x) for x in sorted(us-start)][:20])
print(len(cont),len(uc),len(uc-cont),len(cont-uc)); print([hex(x) for x in sorted(uc-cont)][:20])
# differences where py says yes, unic no
d=sorted((start-us)|(cont-uc))
from itertools import groupby
def ranges(xs):
    xs=sorted(xs);out=[]
    for x in xs:
        if out and out[-1][1]==x-1: out[-1][1]=x
        else: out.append([x,x])
    return out
r=ranges(d); print(len(r)); print([(hex(a),hex(b)) for a,b in r][:60])
old=U.ucd_3_2_0
print('diff chars already assigned in 3.2:',[hex(x) for x in d if old.category(chr(x))!='Cn'][:50])
amb=set(d)|(us-start)|(uc-cont)
open('/verif/harness/src/unicode_table.rs','w').write(
 "// Generated by tools/unicode_table.py from Python's unicodedata %s (general categories + Other_ID_*).\n"%U.unidata_version+
 "".join("pub static %s: &[(u32, u32)] = &[%s];\n"%(n,", ".join("(0x%x, 0x%x)"%(a,b) for a,b in ranges(s))) for n,s in (("START",start-amb),("CONT",cont-amb),("UNSURE",amb))))
