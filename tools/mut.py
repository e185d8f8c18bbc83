import subprocess,sys
def mut(rule, *subs):
    try:
        for path,old,new in subs:
            P='/repo/'+path
            s=open(P,'rb').read()
            crlf=b'\r\n' in s
            o=old.encode(); n=new.encode()
            if crlf: o=o.replace(b'\n',b'\r\n'); n=n.replace(b'\n',b'\r\n')
            if o not in s: print("## NOT FOUND",path,old); return
            open(P,'wb').write(s.replace(o,n,1))
        for r in rule.split(','):
            out=subprocess.run(['/verif/tools/dev.sh',r,'1500'],capture_output=True,text=True).stdout
            print('##',r,out)
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
B='src/pdfmm/base/'; P='src/pdfmm/private/'; C='src/pdfmm/contrib/'
