#!/usr/bin/env python3
"""Builds the interpreter from /repo's working tree into a cache directory.

The library sources are compiled unmodified with -fsanitize=thread (which only
adds calls at memory accesses) and linked against runtime/vsched.cpp instead of
libtsan. Objects are cached by content hash of everything they are built from.
"""
import os, sys, subprocess, hashlib, glob, re
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
REPO=os.environ.get("XD_REPO","/repo")
CACHE=os.environ.get("XD_CACHE",os.path.join(ROOT,".cache"))
CONFIG="""#pragma once
#define BUILD_XDISPATCH2_BACKEND_NAIVE 1
#define BUILD_XDISPATCH2_BACKEND_QT5 1
#define XDISPATCH2_HAVE_PRCTL 1
#define XDISPATCH2_HAVE_SYSCONF 1
#define XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN 1
#define XDISPATCH2_HAVE_SETPRIORITY 1
#define XDISPATCH2_HAVE_IMMINTRIN_H 1
#define XDISPATCH2_HAVE_SOCKETPAIR 1
#define XDISPATCH2_HAVE_DLSYM 1
#define XDISPATCH2_BUILD_SHARED 1
"""
def sh(cmd,**k):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
    return r.returncode,r.stdout
def hash_files(fs,extra=""):
    h=hashlib.sha256(extra.encode())
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f,"rb").read())
    return h.hexdigest()[:20]
def gen_config(d):
    """config.h from the repository's template: keep whatever it defines"""
    os.makedirs(d+"/xdispatch",exist_ok=True)
    tmpl=os.path.join(REPO,"config.h.in")
    out=d+"/xdispatch/config.h"
    text=CONFIG
    if os.path.exists(tmpl):
        text=""
        have=set(re.findall(r"#define (\w+)",CONFIG))
        for line in open(tmpl):
            m=re.match(r"\s*#cmakedefine(01)?\s+(\w+)(.*)",line)
            if m:
                on=m.group(2) in have
                if m.group(1): text+="#define %s %d\n"%(m.group(2),1 if on else 0)
                elif on: text+="#define %s %s\n"%(m.group(2),m.group(3).strip() or "1" if False else m.group(3).strip())
            else: text+=re.sub(r"@\w+@","0",line)
    if not os.path.exists(out) or open(out).read()!=text: open(out,"w").write(text)
def build(qt=False,log=None):
    os.makedirs(CACHE,exist_ok=True)
    gen=os.path.join(CACHE,"gen"); gen_config(gen)
    src=sorted(glob.glob(REPO+"/src/*.cpp")+glob.glob(REPO+"/src/naive/*.cpp"))
    hdrs=[f for f in glob.glob(REPO+"/src/**/*",recursive=True)+glob.glob(REPO+"/include/**/*",recursive=True) if os.path.isfile(f) and not f.endswith(".cpp")]
    hdrs+=[gen+"/xdispatch/config.h"]
    inc=["-I",REPO+"/include","-I",gen,"-I",REPO+"/src"]
    flags=["-std=c++14","-g1","-O1","-DNDEBUG","-DXDISPATCH_MAKEDLL","-fvisibility=hidden","-fPIC","-pthread","-include","stdexcept"]
    tsan=["-fsanitize=thread","--param","tsan-instrument-func-entry-exit=0"]
    qtinc=[];qtlib=[]
    if qt:
        src+=[f for f in sorted(glob.glob(REPO+"/src/qt5/*.cpp")) if "fallback" not in f]
        q=subprocess.run(["pkg-config","--cflags","--libs","Qt5Core"],capture_output=True,text=True).stdout.split()
        qtinc=[x for x in q if not x.startswith("-l") and not x.startswith("-L")]; qtlib=[x for x in q if x.startswith("-l") or x.startswith("-L")]
    hh=hash_files(hdrs)
    jobs=[]
    def add(f,fl,deps=()):
        key=hash_files([f]+list(deps),hh+" ".join(fl))
        o=os.path.join(CACHE,"%s-%s.o"%(os.path.basename(f).replace(".","_"),key))
        jobs.append((f,fl,o)); return o
    objs=[]
    for f in src: objs.append(add(f,flags+tsan+inc+qtinc))
    if qt:
        moc=os.path.join(gen,"moc_qt5_signals.cpp")
        mocbin=None
        for c in ("moc","/usr/lib/qt5/bin/moc","/usr/lib/x86_64-linux-gnu/qt5/bin/moc"):
            rc,_=sh(["bash","-c","command -v "+c])
            if rc==0: mocbin=c; break
        rc,o=sh([mocbin,REPO+"/src/qt5/qt5_signals.h","-o",moc])
        if rc: raise SystemExit("moc failed\n"+o)
        objs.append(add(moc,flags+tsan+inc+qtinc+["-I",REPO+"/src/qt5"]))
    H=ROOT+"/harness/"
    hdeps=[ROOT+"/runtime/vsched.h"]+sorted(glob.glob(H+"*.h"))
    hf=flags+tsan+inc+qtinc+(["-DWITH_QT"] if qt else [])
    objs.append(add(H+"interp.cpp",hf,hdeps))
    objs.append(add(ROOT+"/runtime/vsched.cpp",["-std=c++17","-O2","-g1","-fPIC","-pthread","-fvisibility=hidden"],hdeps))
    def comp(j):
        f,fl,o=j
        if os.path.exists(o): return 0,""
        t=o+".tmp%d"%os.getpid()
        rc,out=sh(["g++"]+fl+["-c",f,"-o",t])
        if rc==0: os.rename(t,o)
        return rc,out
    with ThreadPoolExecutor(8) as ex: res=list(ex.map(comp,jobs))
    for (rc,out),j in zip(res,jobs):
        if rc:
            sys.stderr.write("compile failed: %s\n%s\n"%(j[0],out[-4000:])); raise SystemExit(4)
    exe=os.path.join(CACHE,"interp-%s-%s"%("qt" if qt else "nv",hash_files(objs,"")[:16]))
    if not os.path.exists(exe):
        t=exe+".tmp%d"%os.getpid()
        rc,out=sh(["g++","-rdynamic","-pthread","-o",t]+objs+qtlib+["-ldl"])
        if rc: sys.stderr.write("link failed\n"+out[-4000:]); raise SystemExit(4)
        os.rename(t,exe)
    return exe
if __name__=="__main__":
    print(build("qt" in sys.argv[1:]))
