import json,os,subprocess,shutil,sys,threading,random
from concurrent.futures import ThreadPoolExecutor
V='/tmp/mut/verif'
ms=json.load(open('/tmp/mut/all.json'))
for i,m in enumerate(ms): m['id']=i
st={}
for l in open('/tmp/mut/filt.jsonl'):
    d=json.loads(l); st[d['id']]=d['st']
done={json.loads(l)['id'] for l in open('/tmp/mut/hunt.jsonl')} if os.path.exists('/tmp/mut/hunt.jsonl') else set()
C={'scanner.go':'C02 C01 C03 C04','parser.go':'C03 C01 C04 C02','macros.go':'C03 C01 C04 C02','ast/walk.go':'C05 C14','ast/ast.go':'C06 C04 C03 C01','tex':'C12 C09 C07 C08 C10 C11 C13 C15 C14 C16',
'mtex/parser.go':'C15 C14 C16 C17 C18','mtex/macros.go':'C14 C17 C15 C16','mtex/render.go':'C18 C25','mtex/symbols':'C24 C16','font/ttf':'C20 C19 C18 C23','font/font.go':'C20','font/lm':'C23 C18 C20','font/liberation':'C23 C18 C20','internal/tex2unicode':'C21 C20','drawtex/canvas.go':'C20 C22 C18','drawtex/drawimg':'C22 C25','cmd/mtex-render/main.go':'C25','cmd/mtex-render/gio.go':'C26','cmd/mtex-render/fonts.go':'C26'}
def checks(f):
    for k in sorted(C,key=len,reverse=True):
        if f.startswith(k): return C[k].split()
q=[m for m in ms if st.get(m['id'])=='survives' and m['id'] not in done and checks(m['File'])]
random.seed(3); random.shuffle(q)
if len(sys.argv)>2: q=[m for m in q if any(m['File'].startswith(a) for a in sys.argv[2:])]
print(len(q),flush=True)
lock=threading.Lock(); res=open('/tmp/mut/hunt.jsonl','a')
def one(m):
    w='/tmp/mut/h%d'%m['id']
    try:
        subprocess.run(['git','clone','-q','/repo',w+'/repo'],check=True)
        p=w+'/repo/'+m['File']; src=open(p,'rb').read()
        open(p,'wb').write(src[:m['Off']]+m['New'].encode()+src[m['End']:])
        shutil.copytree(V,w+'/verif',ignore=shutil.ignore_patterns('.git','seeded','replays','evidence'))
        out=[]
        by='MISSED'
        for c in checks(m['File']):
            try:
                r=subprocess.run([sys.executable,'check.py',c],cwd=w+'/verif',env=dict(os.environ,VERIF_REPO=w+'/repo'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900)
                rc=r.returncode
            except subprocess.TimeoutExpired: rc='T'
            out.append((c,rc))
            if rc==1: by=c; break
            if rc not in (0,1): by='BROKEN '+c+' '+(r.stdout[-300:] if rc!='T' else ''); break
        with lock:
            res.write(json.dumps(dict(id=m['id'],by=by,out=out))+'\n'); res.flush()
            if by=='MISSED' or by.startswith('BROKEN'): print(m['id'],m['File'],m['Line'],m['Func'],m['Desc'],'->',m['New'],by,flush=True)
    finally: shutil.rmtree(w,ignore_errors=True)
with ThreadPoolExecutor(int(sys.argv[1])) as ex: list(ex.map(one,q))
print('END')
