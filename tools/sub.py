import sys
def sub(p,a,b,n=1):
    s=open(p,newline='').read(); crlf='\r\n' in s; s=s.replace('\r\n','\n')
    assert s.count(a)==n,(p,s.count(a))
    s=s.replace(a,b)
    open(p,'w',newline='').write(s.replace('\n','\r\n') if crlf else s)
