"""edit.py FILE < list of (old,new[,count]): byte-preserving exact replacement helper (keeps CRLF)."""
import sys
f=sys.argv[1]; s=open(f,encoding='latin-1',newline='').read()
crlf='\r\n' in s
if crlf:
    assert s.count('\r\n')==s.count('\n'), "mixed line ends"
    s=s.replace('\r\n','\n')
for old,new,*cnt in eval(sys.stdin.read()):
    n=s.count(old); want=cnt[0] if cnt else 1
    assert n==want, (n,old)
    s=s.replace(old,new)
if crlf: s=s.replace('\n','\r\n')
open(f,'w',encoding='latin-1',newline='').write(s)
