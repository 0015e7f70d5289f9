"""Builds /repo's current sources and the conformance drivers, cached by content hash under /verif/build."""
import hashlib, os, re, subprocess, sys, shutil, concurrent.futures as cf, fcntl
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
SRC=REPO+"/source"
LINUX=dict(CY_HAVE_UNISTD_H=1,CY_HAVE_INTTYPES_H=1,CY_HAVE_SYS_UIO_H=1,CY_HAVE_SYS_EVENTFD_H=1,CY_SYS_LINUX=1,CY_HAVE_EPOLL=1,
  CY_HAVE_READWRITE_V=1,CY_HAVE_PIPE2=1,CY_HAVE_TIMERFD=1,CY_HAVE_TIMED_LOCK=1)
VARIANTS={
 "epoll":dict(LINUX),
 "log":dict(LINUX,CY_ENABLE_LOG=1),
 "select":{k:v for k,v in LINUX.items() if k!="CY_HAVE_EPOLL"},
 # a system without vectored reads and writes, pipe2 and timed locks
 "plain":{k:v for k,v in LINUX.items() if k not in ("CY_HAVE_READWRITE_V","CY_HAVE_PIPE2","CY_HAVE_TIMED_LOCK")},
}
CXX="g++"
BASEF="-g -std=c++14 -include memory -w -U_FORTIFY_SOURCE -fno-omit-frame-pointer".split()
INSTR="-O1 -fno-inline -fstack-protector-all -fsanitize=thread".split()
def files(root,exts):
    out=[]
    for d,_,fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(exts): out.append(os.path.join(d,f))
    return sorted(out)
def h_of(paths,extra=""):
    h=hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()[:16]
def run(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise RuntimeError("build failed: %s\n%s"%(" ".join(cmd),r.stdout[-1500:]))
def gen_config(path,defs):
    s=open(SRC+"/cyclone_config.h.in",encoding="utf-8-sig").read()
    def sub(m):
        n=m.group(1)
        return "#define %s 1"%n if n in defs else "/* #undef %s */"%n
    s=re.sub(r"#cmakedefine\s+(\w+)[^\n]*",sub,s)
    open(path,"w").write(s)
def build(driver,variant="epoll"):
    """returns the path of the driver executable"""
    repo_files=files(SRC,(".h",".cpp",".in"))
    har=files(VERIF+"/harness",(".h",".cpp"))
    drv=VERIF+"/harness/%s.cpp"%driver
    key=h_of(repo_files+[VERIF+"/harness/vsched.h",VERIF+"/harness/vs_int.h",VERIF+"/harness/vsched.cpp",VERIF+"/harness/vkern.cpp"]+[f for f in har if f.endswith("_util.h")],variant+" ".join(sorted(VARIANTS[variant]))+" ".join(BASEF+INSTR))
    B=VERIF+"/build/%s-%s"%(variant,key)
    os.makedirs(VERIF+"/build",exist_ok=True)
    lock=open(VERIF+"/build/.lock","w"); fcntl.flock(lock,fcntl.LOCK_EX)
    os.makedirs(B,exist_ok=True)
    text=open(drv).read(); app="d_app.h" in text
    # a driver that runs sample programs is built from them as well
    extra=[VERIF+"/harness/d_app.h"]+files(REPO+"/samples",(".h",".cpp")) if app else []
    exe=B+"/%s-%s"%(driver,h_of([drv]+extra))
    if os.path.exists(exe): return exe
    gen_config(B+"/cyclone_config.h",VARIANTS[variant])
    inc=["-I"+B]+["-I"+d for d in (SRC,SRC+"/cyCore",SRC+"/cyEvent",SRC+"/cyNetwork",SRC+"/cyCrypt",SRC+"/cyUtility")]+["-I"+VERIF+"/harness"]
    jobs=[]; objs=[]
    for c in files(SRC,(".cpp",)):
        if "kqueue" in c or "cswrap" in c or ("looper_epoll" in c and "CY_HAVE_EPOLL" not in VARIANTS[variant]): continue
        o=B+"/"+os.path.relpath(c,SRC).replace("/","_")+".o"; objs.append(o)
        if not os.path.exists(o): jobs.append([CXX]+BASEF+INSTR+inc+["-c",c,"-o",o])
    for c in ("vsched","vkern"):
        o=B+"/%s.o"%c; objs.append(o)
        if not os.path.exists(o): jobs.append([CXX,"-g","-std=c++17","-O2","-w","-U_FORTIFY_SOURCE","-I"+VERIF+"/harness","-c",VERIF+"/harness/%s.cpp"%c,"-o",o])
    do=exe+".o"
    jobs.append([CXX]+BASEF+INSTR+inc+(["-I"+REPO] if app else [])+["-c",drv,"-o",do])
    def j(cmd):
        tmp=cmd[-1]+".tmp"; run(cmd[:-1]+[tmp]); os.rename(tmp,cmd[-1])
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(j,c) for c in jobs]: f.result()
    run([CXX,"-g","-rdynamic","-o",exe+".tmp",do]+objs+["-ldl","-lpthread"])
    os.rename(exe+".tmp",exe); os.unlink(do)
    return exe
if __name__=="__main__":
    print(build(sys.argv[1],sys.argv[2] if len(sys.argv)>2 else "epoll"))
