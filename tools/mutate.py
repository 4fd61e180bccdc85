import re,random,sys,os,json,subprocess,shutil,time,threading,queue
random.seed(int(sys.argv[1])); N=int(sys.argv[2]); W=int(sys.argv[3]); only=sys.argv[4:] 
sys.path.insert(0,'/verif')
R=os.environ.get('MUT_BASE','/tmp/mutbase')   # a clone of /repo; usage: mutate.py SEED COUNT WORKERS [file part...]
files={ # file -> checks in order
 'include/maec/dsp/buffer.hpp':['B01','B02','C01','C02'],'src/dsp/buffer.cpp':['B01','C01','C02'],'src/audio_buffer.cpp':['B01','C01','C02','W04'],'include/maec/audio_buffer.hpp':['C01','C02','B01'],
 'src/io/mstream.cpp':['M01','M02'],'include/maec/io/mstream.hpp':['M01','M02'],'src/io/wav.cpp':['W01','W02','W03','W04','W05','M02'],'include/maec/io/wav.hpp':['W01','W02','W03','W04','W05'],
 'include/maec/dsp/conv.hpp':['K01'],'src/dsp/conv.cpp':['K01'],'include/maec/dsp/ft.hpp':['F01','F02'],'src/dsp/ft.cpp':['F01'],'include/maec/dsp/util.hpp':['F02','F01'],'src/dsp/util.cpp':['F02'],
 'include/maec/dsp/kernel.hpp':['N01'],'src/dsp/kernel.cpp':['N01'],'include/maec/dsp/window.hpp':['N01'],'src/dsp/window.cpp':['N01'],'include/maec/dsp/iir.hpp':['I01'],'src/dsp/iir.cpp':['I01'],'include/maec/dsp/matrix.hpp':['Q01'],
 'include/maec/filter_module.hpp':['S01'],'src/filter_module.cpp':['S01'],'include/maec/audio_module.hpp':['A01','R01'],'include/maec/base_module.hpp':['A01','R01'],'src/base_module.cpp':['A01','R01'],'include/maec/sink_module.hpp':['A01','L01'],'src/sink_module.cpp':['A01','L01'],'include/maec/source_module.hpp':['A01'],'src/source_module.cpp':['A01'],
 'include/maec/amp_module.hpp':['A01'],'include/maec/module_mixer.hpp':['X01'],'src/module_mixer.cpp':['X01'],'include/maec/meta_audio.hpp':['U01','T01'],'src/meta_audio.cpp':['U01','T01'],'include/maec/chrono.hpp':['T01'],'src/chrono.cpp':['T01'],
 'include/maec/utils.hpp':['Q01'],'include/maec/fund_oscillator.hpp':['O01'],'src/fund_oscillator.cpp':['O01'],'include/maec/base_oscillator.hpp':['O01'],'include/maec/module_param.hpp':['R01'],'src/module_param.cpp':['R01'],
 'include/maec/envelope.hpp':['E01','E02','E03'],'src/envelope.cpp':['E01','E02','E03'],'include/maec/parallel.hpp':['P01'],'src/io/alsa_module.cpp':['L01'],'include/maec/io/alsa_module.hpp':['L01']}
def muts(f):
    src=open(R+'/'+f).read().split('\n'); out=[]; inc=False
    for i,l in enumerate(src):
        s=l.strip()
        if s.startswith('/*'): inc='*/' not in s; continue
        if inc:
            if '*/' in s: inc=False
            continue
        if not s or s.startswith(('//','*','#','using','namespace','template','static_assert','requires','concept')): continue
        code=re.sub(r'//.*','',l)
        def add(a,b,new,kind): out.append((f,i,l,new,kind))
        for m in re.finditer(r'(?<![<>=!\-&|+*/])(<=|>=|<|>|==|!=)(?![<>=])',code):
            o=m.group(1)
            if o in '<>' and not (m.start()>0 and code[m.start()-1]==' ' and m.end()<len(code) and code[m.end()]==' '): continue
            r={'<':'<=','<=':'<','>':'>=','>=':'>','==':'!=','!=':'=='}[o]; out.append((f,i,l,code[:m.start()]+r+code[m.end():],'rel'))
        for m in re.finditer(r' (\+|-|\*|/|%) ',code):
            r={'+':'-','-':'+','*':'/','/':'*','%':'/'}[m.group(1)]; out.append((f,i,l,code[:m.start()]+' '+r+' '+code[m.end():],'arith'))
        for m in re.finditer(r' (\+=|-=|\*=) ',code):
            r={'+=':'-=','-=':'+=','*=':'+='}[m.group(1)]; out.append((f,i,l,code[:m.start()]+' '+r+' '+code[m.end():],'assign'))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code): out.append((f,i,l,code[:m.start()]+str(int(m.group(1))+1)+code[m.end():],'const'))
        for m in re.finditer(r'\b(true|false)\b',code): out.append((f,i,l,code[:m.start()]+('false' if m.group(1)=='true' else 'true')+code[m.end():],'bool'))
        for m in re.finditer(r'(&&|\|\|)',code):
            if m.group(1)=='&&' and ('auto&&' in code or 'T&&' in code or 'F&&' in code or 'A&&' in code): continue
            out.append((f,i,l,code[:m.start()]+('||' if m.group(1)=='&&' else '&&')+code[m.end():],'logic'))
        for m in re.finditer(r'\b(start|stop|begin|channels|size|in_buffer|out_buffer|get_forward|get_backward)\b',code): pass
        if s.endswith(';') and l.startswith('    ') and re.match(r'^(this->|\w+[\.\-\[(]|\w+\(|\*|\+\+|--|\w+ [+\-*/]?= )',s) and not s.startswith(('return','const','int ','auto ','double ','std::')) : out.append((f,i,l,re.match(r'\s*',l).group(0)+';','del'))
        for a,b in (('int64_t','int'),('double','float'),('uint32_t','uint16_t'),('int32_t','int16_t'),('std::size_t','int'),('std::size_t','uint8_t'),('unsigned int','unsigned char'),('int','short'),('int','unsigned int'),('unsigned char','char'),('int16_t','int8_t'),('char','unsigned char')):
            for m in re.finditer(r'(?<![\w:])'+re.escape(a)+r'(?![\w:(])',code): out.append((f,i,l,code[:m.start()]+b+code[m.end():],'type'))
        m=re.match(r'^(\s*(?:else )?if \()(.*)(\) \{?\s*)$',code)
        if m: out.append((f,i,l,m.group(1)+'!('+m.group(2)+')'+m.group(3),'neg'))
    kinds=os.environ.get('MUT_KINDS'); return [o for o in out if (o[4] in kinds.split(',') if kinds else o[4]!='type')]
allm=[]
for f in files:
    if only and not any(o in f for o in only): continue
    if os.path.exists(R+'/'+f): allm+=muts(f)
random.shuffle(allm); 
# balance by file: at most sqrt-ish
per={}; sel=[]
for m in allm:
    per.setdefault(m[0],[]).append(m)
while len(sel)<N and any(per.values()):
    for f in list(per):
        k=max(1,len(per[f])//25)
        for _ in range(k):
            if per[f] and len(sel)<N: sel.append(per[f].pop())
random.shuffle(sel)
q=queue.Queue(); [q.put(m) for m in sel]
print(len(allm),'mutants,',len(sel),'selected',flush=True)
log=open('/tmp/mut/log.%s'%sys.argv[1],'a'); lk=threading.Lock()
def work(k):
    r='/tmp/mut/r%d'%k; v='/tmp/mut/v%d'%k
    subprocess.run(['rm','-rf',r,v]); subprocess.run(['git','clone','-q',R,r]); subprocess.run(['git','clone','-q','/verif',v]); os.makedirs(v+'/build',exist_ok=True); shutil.copy('/verif/build/symx',v+'/build/symx'); os.makedirs(v+'/evidence',exist_ok=True)
    while True:
        try: f,i,l,new,kind=q.get_nowait()
        except queue.Empty: return
        src=open(R+'/'+f).read().split('\n'); src[i]=new; open(r+'/'+f,'w').write('\n'.join(src)); res='SURVIVED'; t=time.time(); det=''
        for c in files[f]:
            try: p=subprocess.run(['python3',v+'/run.py',c],capture_output=True,text=True,env=dict(os.environ,MAEC_REPO=r),timeout=900); rc,o=p.returncode,p.stdout
            except subprocess.TimeoutExpired: rc,o=99,''
            if rc==1 and 'VIOLATION property' in o: res='caught '+c; break
            if rc==2 and 'COMPILE-ERROR' in o: res='nocompile'; break
            if rc!=0: res='rc%d %s'%(rc,c); det=o[-600:]; 
        shutil.copy(R+'/'+f,r+'/'+f)
        with lk: log.write(json.dumps(dict(res=res,kind=kind,file=f,line=i+1,old=l.strip(),new=new.strip(),t=round(time.time()-t),det=det))+'\n'); log.flush()
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
