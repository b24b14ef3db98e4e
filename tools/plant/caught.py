import sys,re,os
os.chdir('/verif')
have=set(l.split()[0] for l in open('tools/caught.txt') if l.strip())
new=set()
for l in open(sys.argv[1]):
    m=re.match(r'(\S+) tests\[102 0 .*check=1 \(\d+s\) (C\d\d)-(.+)-\d+\.txt',l)
    if m and m[1] not in have and os.path.isdir('seeded/'+m[1]): new.add(' '.join((m[1],m[2],m[3])))
ls=set(l.rstrip('\n') for l in open('tools/caught.txt'))|new
open('tools/caught.txt','w').write('\n'.join(sorted(x for x in ls if x))+'\n')
print(len(new)); 
for d in sorted(os.listdir('seeded')):
    if not any(x.startswith(d+' ') for x in ls): print('not listed',d)
