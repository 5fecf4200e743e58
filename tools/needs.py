import subprocess,os,json,re
B='/verif/build/q'; H=sorted(f[:-4] for f in os.listdir('/verif/harness') if f.endswith('.cpp'))
objs={}
for d,_,fs in os.walk(B+'/lib'):
    for f in fs:
        if f.endswith('.o'): objs.setdefault(f,[]).append(os.path.relpath(os.path.join(d,f),B+'/lib')[:-2]+'.cpp')
assert all(len(v)==1 for v in objs.values()),[v for v in objs.values() if len(v)>1]
LIBS="-lspqr -lcholmod -lccolamd -lcamd -lcolamd -lamd -lumfpack -lsuitesparseconfig -llapack -lblas -lpthread".split()
out={}
for h in H:
    r=subprocess.run(['clang++','-fsanitize=address','-Wl,-Map=/tmp/x.map',f'{B}/h/{h}.o',f'{B}/libgc.a','-o','/tmp/x.out']+LIBS,capture_output=True,text=True)
    m=sorted({objs[x][0] for x in re.findall(r'libgc\.a\((\w+\.o)\)',open('/tmp/x.map').read())})
    out[h]=m; print(h,len(m),r.returncode)
json.dump(out,open('/verif/tools/needs.json','w'),indent=0)
