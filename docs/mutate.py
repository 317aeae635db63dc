"""Mutation testing of the checks in a scratch copy of the repository, /tmp/mut (a development tool, not part of any check)."""
import io, json, os, random, re, shutil, subprocess as sp, sys, tokenize, multiprocessing as mp
REPO="/tmp/mut/repo"
E="harmonisation_eiv/harmonisation/"
M=E+"core/matchup/"
H=M+"matchupToolbox/harmonisation/"
G=H+"harmonisationProcessing/harmonisation_eiv/"
FILES={
 M+"matchupIO/MatchUpReader.py":(90,["P01","P02","P04"]),
 M+"matchupIO/MatchUp.py":(70,["P04","P01","P02","P07"]),
 M+"matchupIO/Uncertainty.py":(15,["P02","P06"]),
 M+"matchupIO/MatchUpWriter.py":(40,["P03"]),
 M+"matchupProcessing/sample2ind/Sample2Ind.py":(50,["P05","P12"]),
 M+"matchupProcessing/sample2ind/cython_lib_sample2ind.pyx":(15,["P05"]),
 M+"matchupProcessing/simulate_matchup/SimulateMatchUp.py":(25,["P05"]),
 M+"matchupProcessing/transform2normind/Transform2NormInd.py":(50,["P06"]),
 M+"matchupToolbox/utils/matchup_maths.py":(45,["P07"]),
 H+"harmonisationIO/HarmonisationResult.py":(80,["P13"]),
 G+"GN_algo.py":(130,["P09","P11","P14"]),
 G+"cython_lib_GN_algo.pyx":(15,["P09"]),
 G+"pykrylov_lsmr.py":(60,["P10"]),
 G+"pykrylov_minres.py":(60,["P10"]),
 G+"pykrylov_generic.py":(8,["P10"]),
 G+"HarmonisationEIV.py":(25,["P14","P11"]),
 H+"harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py":(70,["P12"]),
 H+"harmonisationProcessing/harmonisation_eiv_pc/HarmonisationEIVPC.py":(10,["P12","P14"]),
 E+"tools/HarmonisationOp.py":(50,["P15","P14"]),
 E+"tools/common.py":(40,["P15","P14"]),
 E+"core/utils/stats.py":(15,["P16"]),
 E+"sensor_data/AVHRR/AVHRR_sensor_models.py":(50,["P08"]),
 E+"sensor_data/HIRS/HIRS_sensor_models.py":(20,["P08"]),
 E+"sensor_data/HIRS/HIRS_config_functions.py":(10,["P08"]),
 E+"sensor_data/MW/MW_sensor_models.py":(25,["P08"]),
 E+"sensor_data/SensorDataFactory.py":(10,["P08","P15"]),
 "tools/W_matrix_functions.py":(60,["P03","P17","P20","P21"]),
 "tools/generate_w_matrices.py":(35,["P17"]),
 "tools/harmonisation_input_checker.py":(90,["P18"]),
 "tools/MW_add_W_matrices.py":(50,["P20"]),
 "tools/convert_bt_to_radiance.py":(25,["P19"]),
 "tools/pmh2fiduceo.py":(80,["P21"]),
}
SW={"+":["-"],"-":["+"],"*":["/"],"/":["*"],"<":["<=",">"],">":[">=","<"],"<=":["<"],">=":[">"],"==":["!="],"!=":["=="],
    "and":["or"],"or":["and"],"not":[""],"True":["False"],"False":["True"],"min":["max"],"max":["min"],"**":["*"],"+=":["-=","="],"-=":["+="],"*=":["="],
    "in":["not in"],"any":["all"],"all":["any"],"break":["continue"],"continue":["break"],"hstack":["vstack"],"vstack":["hstack"],"sorted":["list"],"zeros":["ones"],"ones":["zeros"],"sqrt":["abs"],"mean":["median"],"sum":["max"],"T":["real"],"copy":["view"],"deepcopy":["copy"],"extend":["append"]}
SKIP=re.compile(r"^\s*(print\b|raise\b|import\b|from\b|def\b|class\b|@|__|logging|self\.logger|warnings|help|else|try|except|finally)|add_argument|description=|\bprint\(|verbose|HOUT|show =|lprnt")
def muts(src):
    L=src.split("\n")
    out=[]
    try: toks=list(tokenize.generate_tokens(io.StringIO(src).readline))
    except Exception as e: print("tokenize",e); toks=[]
    first={}
    for t in toks:
        if t.type in (tokenize.NUMBER,tokenize.OP,tokenize.NAME):
            r,c=t.start
            line=L[r-1]
            if SKIP.search(line): continue
            reps=[]
            s=t.string
            if t.type==tokenize.NUMBER:
                try:
                    v=eval(s)
                    if isinstance(v,int): reps=[str(v+1)]+([str(v-1)] if v>0 else [])
                    else: reps=[repr(v*2)] if v else ["1.0"]
                except Exception: pass
            elif s in SW:
                reps=SW[s]
                if s in("*","**","+","-") and (c==0 or line[c-1] in "(,[ " and (c<1 or line[:c].rstrip()[-1:] in "(,[=")): 
                    reps=[] if s!="-" else [""]
                if s=="in" and line.strip().startswith("for"): reps=[]
                if s=="in" and " for " in line: reps=[]
                if s=="T" and line[c-1:c]!=".": reps=[]
            elif t.type==tokenize.NAME:
                m=re.match(r"^(.*[A-Za-z_])([12])$",s)
                if m: reps=[m.group(1)+{"1":"2","2":"1"}[m.group(2)]]
            for q in reps:
                out.append((r,"%s->%s"%(s,q),c,len(s),q))
    # statements
    depth=0; starts=[]
    prev=None; stm=[]; cur=None
    for t in toks:
        if t.type in (tokenize.NEWLINE,):
            if cur: stm.append((cur,t.start[0])); cur=None
        elif t.type in (tokenize.NL,tokenize.COMMENT,tokenize.INDENT,tokenize.DEDENT,tokenize.ENDMARKER): pass
        elif cur is None: cur=t.start[0]
    for a,b in stm:
        line=L[a-1]
        if SKIP.search(line) or a!=b: continue
        st=line.strip()
        ind=line[:len(line)-len(line.lstrip())]
        if not ind: continue
        if st.startswith(("'",'"','return')): 
            continue
        m=re.match(r"^(if|elif|while) (.*):\s*(#.*)?$",st)
        if m:
            if m.group(1)!="while":
                out.append((a,"cond->True",None,None,ind+m.group(1)+" True:")); 
            out.append((a,"cond->False",None,None,ind+m.group(1)+" False:"))
        elif st.startswith(("for","with","else","pass","break","continue")): pass
        elif re.match(r"^[A-Za-z_.]+(\[.*\])* *[-+*]?= ",st) and not re.match(r"^[A-Za-z_]+ = ",st) or not "=" in st.split("(")[0]:
            out.append((a,"delete: "+st[:60],None,None,ind+"pass"))
    return L,out
def apply(L,m):
    r,d,c,n,q=m
    L=list(L)
    if c is None: L[r-1]=q
    else: L[r-1]=L[r-1][:c]+q+L[r-1][c+n:]
    return "\n".join(L)
def plan(seed,frac=1.0,only=None):
    jobs=[]
    for f,(n,checks) in FILES.items():
        if only and not re.search(only,f): continue
        s=open(REPO+"/"+f,newline="").read().replace("\r\n","\n")
        L,ms=muts(s)
        R=random.Random("%s%s"%(seed,f))
        bl={}
        for m in ms: bl.setdefault(m[0],[]).append(m)
        lines=sorted(bl); R.shuffle(lines)
        pick=[]
        n=int(n*frac)
        while len(pick)<n and lines:
            for l in list(lines):
                if not bl[l]: lines.remove(l); continue
                pick.append(bl[l].pop(R.randrange(len(bl[l]))))
                if len(pick)>=n: break
        for m in pick: jobs.append((f,m,checks))
    return jobs
def work(args):
    i,(f,m,checks)=args
    w=int(mp.current_process()._identity[0])
    d="/tmp/mut/r%d"%w
    if not os.path.isdir(d): sp.check_call(["cp","-a",REPO,d])
    p=d+"/"+f
    raw=open(REPO+"/"+f,newline="").read()
    L,_=muts(raw.replace("\r\n","\n"))
    new=apply(L,m)
    if "\r\n" in raw: new=new.replace("\n","\r\n")
    open(p,"w",newline="").write(new)
    ev="/tmp/mut/ev%d"%w; os.makedirs(ev,exist_ok=True)
    env=dict(os.environ,VERIF_REPO=d,VERIF_BASE="/tmp/mut/base",VERIF_FAST="1",VERIF_EVIDENCE=ev,VERIF_SEED="1",VERIF_TIER="quick")
    res=[]; status="SURVIVED"
    for c in checks:
        try:
            r=sp.run(["timeout","400","/tmp/mut/verif/check",c],env=env,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,errors="replace")
        except Exception as e: res.append(str(e)); continue
        if r.returncode==1: status="killed "+c; break
        if r.returncode!=0:
            status="ERR%d %s"%(r.returncode,c); res.append(r.stdout[-300:]); 
            if "SyntaxError" in r.stdout: status="invalid"
            break
    shutil.copy(REPO+"/"+f,p)
    o={"i":i,"file":f,"line":m[0],"mut":m[1],"old":L[m[0]-1].strip(),"new":new.replace("\r\n","\n").split("\n")[m[0]-1].strip(),"status":status,"res":res}
    with open(OUT,"a") as g: g.write(json.dumps(o)+"\n")
    return status
if __name__=="__main__":
    seed,frac,procs,OUT=sys.argv[1],float(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
    only=sys.argv[5] if len(sys.argv)>5 else None
    jobs=plan(seed,frac,only)
    random.Random(seed).shuffle(jobs)
    print(len(jobs))
    if procs:
        from collections import Counter
        c=Counter()
        with mp.Pool(procs) as pool:
            for k,s in enumerate(pool.imap_unordered(work,list(enumerate(jobs)),chunksize=1)):
                c[s.split()[0]]+=1
                if k%50==0: print(k,dict(c),flush=True)
        print(dict(c))
