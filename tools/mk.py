import json,os,re,subprocess,shutil
def bug(id, prop, file, old, new, needs, breaks, demo, std="c++17", flags="", extra=()):
    """file relative to include/NazaraUtils; extra: further (file, old, new)"""
    d=f'/verif/seeded/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w='/tmp/mkrepo'; shutil.rmtree(w,ignore_errors=True); subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,o,n in [(file,old,new),*extra]:
        p=f'{w}/include/NazaraUtils/{f}'; s=open(p,newline='').read()
        if '\r\n' in s: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
        # blank lines of the file need not be given
        rx=r'(?:[ \t]*\r?\n)+'.join(re.escape(l.rstrip('\r')) for l in o.split('\n') if l.strip() or l is o.split('\n')[-1])
        m=list(re.finditer(rx,s)); assert len(m)==1,(id,f,len(m),o)
        open(p,'w',newline='').write(s[:m[0].start()]+n+s[m[0].end():])
    diff=subprocess.run(['git','diff'],cwd=w,stdout=subprocess.PIPE,check=True).stdout
    open(d+'/patch.diff','wb').write(diff)
    base=subprocess.run(['git','-C','/repo','show',f'6a56fc1:include/NazaraUtils/{file}'],stdout=subprocess.PIPE).stdout.decode()
    for l in diff.decode().splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].rstrip('\r') not in [x.rstrip('\r') for x in base.splitlines()]: print('WARNING not original:',id,l)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run with cwd = the repository; exits 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
g++ -std={std} -O1 -w {flags} -Iinclude "$here/demo.cpp" -o "$tmp/demo" || exit 3
timeout 60 "$tmp/demo"
''')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
