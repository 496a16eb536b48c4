#!/usr/bin/env python3
"""Builds the library from /repo's current tree (all of src/, FTK replaced by a stub) and one explorer."""
import os, sys, subprocess, hashlib, concurrent.futures, glob
MC=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('CPSZ_REPO','/repo')
SYNC=['pthread_mutex_lock','pthread_mutex_unlock','pthread_once','__cxa_guard_acquire','__cxa_guard_release','__cxa_guard_abort']
WRAP=['malloc','free','calloc','realloc','memset','memcpy','printf','puts','putchar','exit']
VARIANTS={
 # as shipped: -g -O2, C++11
 'plain': dict(cxx='g++', lib=['-g','-O2','-U_FORTIFY_SOURCE','-fno-builtin-memcpy'], har=['-g','-O2','-U_FORTIFY_SOURCE'], env=True, link=[]),
 # the same with few quantization intervals: fast, and every interval boundary is within reach
 'small': dict(cxx='g++', lib=['-g','-O2','-U_FORTIFY_SOURCE','-fno-builtin-memcpy','-DCPSZ_MC_CAPACITY=128'], har=['-g','-O2','-U_FORTIFY_SOURCE','-DMC_SMALL'], env=True, link=[]),
 'asan':  dict(cxx='g++', lib=['-g','-O1','-fsanitize=address,bounds','-fno-sanitize-recover=bounds','-fno-omit-frame-pointer'],
               har=['-g','-O1','-fsanitize=address','-fno-omit-frame-pointer','-DMC_ASAN'], env=False, link=['-fsanitize=address,bounds']),

 # without the controlled environment
 'raw':   dict(cxx='g++', lib=['-g','-O2'], har=['-g','-O2'], env=False, link=[]),
 'tsan':  dict(cxx='g++', lib=['-g','-O1','-fsanitize=thread','-DCPSZ_MC_CAPACITY=128'], har=['-g','-O1','-fsanitize=thread','-DMC_SMALL','-DMC_TSAN'], env=False, link=['-fsanitize=thread']),
 'asan_small': dict(cxx='g++', lib=['-DCPSZ_MC_CAPACITY=128','-g','-O1','-fsanitize=address,bounds','-fno-sanitize-recover=bounds','-fno-omit-frame-pointer'],
               har=['-g','-O1','-fsanitize=address','-fno-omit-frame-pointer','-DMC_SMALL','-DMC_ASAN'], env=False, link=['-fsanitize=address,bounds']),
}
class BuildError(SystemExit): pass
def build(explorer, variant='plain', outdir=None, instrument=False, extra_defs=(), name=None, shared=False):
    V=VARIANTS[variant]; out=outdir or os.path.join(MC,'..','build'); out=os.path.abspath(out)
    tag=variant+('-instr' if instrument else '')
    od=os.path.join(out,tag); os.makedirs(od,exist_ok=True)
    common=['-std=gnu++11','-include','cassert','-include','cstdint','-w','-I'+os.path.join(REPO,'include'),'-I'+os.path.join(MC,'stub')]
    libflags=list(V['lib'])
    if instrument: libflags+=['-fsanitize-coverage=trace-pc']
    jobs=[]; objs=[]; nlib=0
    def h(*xs):
        m=hashlib.sha1()
        for x in xs: m.update(x if isinstance(x,bytes) else x.encode()); m.update(b'\0')
        return m.hexdigest()
    hdr=b''.join(open(f,'rb').read() for f in sorted(glob.glob(REPO+'/include/*'))+sorted(glob.glob(MC+'/stub/ftk/numeric/*')))
    for src in sorted(glob.glob(REPO+'/src/*.cpp')):
        k=h(open(src,'rb').read(),hdr,' '.join(common+libflags))
        o=os.path.join(od,'lib_'+os.path.basename(src)[:-4]+'_'+k[:12]+'.o'); objs.append(o)
        if not os.path.exists(o): jobs.append([V['cxx']]+common+libflags+['-fPIC','-c',src,'-o',o])
    nlib=len(objs)
    mchdr=b''.join(open(f,'rb').read() for f in sorted(glob.glob(MC+'/*.hpp')))
    har=['mc.cpp',explorer+'.cpp','mc_release.cpp']+(['env.cpp'] if V['env'] else ['env_asan.cpp'])
    for s in har:
        src=os.path.join(MC,s); fl=['-std=gnu++17','-w','-I'+MC,'-I'+os.path.join(REPO,'include')]+V['har']+list(extra_defs)
        fl+=['-include','cassert','-include','cstdint']
        if s=='env.cpp': fl+=['-fno-builtin']
        k=h(open(src,'rb').read(),hdr,mchdr,' '.join(fl))
        o=os.path.join(od,'h_'+s[:-4]+'_'+k[:12]+'.o'); objs.append(o)
        if not os.path.exists(o): jobs.append([V['cxx']]+fl+['-c',src,'-o',o])
    def run(c):
        p=subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        return (c,p.returncode,p.stdout)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for c,rc,o in ex.map(run,jobs):
            if rc: sys.stderr.write(' '.join(c)+'\n'+o); raise (BuildError(2) if explorer+'.cpp' in c[c.index('-c')+1] else SystemExit(2))
    exe=os.path.join(od,name or explorer)
    wrap=['-Wl,'+','.join('--wrap='+w for w in WRAP+(SYNC if instrument else []))] if V['env'] else []
    if shared: # the library on its own, so that its static storage can be told apart
        so=exe+'.lib.so'; c,rc,o=run([V['cxx'],'-shared','-Wl,-z,now,-Bsymbolic']+objs[:nlib]+['-o',so,'-lzstd']+wrap+V['link'])
        if rc: sys.stderr.write(o); sys.exit(2)
        objs=objs[nlib:]+[so,'-Wl,-rpath,$ORIGIN','-rdynamic']
    link=[V['cxx']]+objs+['-o',exe,'-lzstd','-lpthread','-ldl']+V['link']+wrap
    c,rc,o=run(link)
    if rc: sys.stderr.write(' '.join(link)+'\n'+o); sys.exit(2)
    return exe
if __name__=='__main__':
    a=sys.argv[1:]; defs=[x for x in a if x.startswith('-D')]; a=[x for x in a if not x.startswith('-')]
    print(build(a[0],a[1] if len(a)>1 else 'plain',name=a[2] if len(a)>2 else None,extra_defs=defs,shared='--shared' in sys.argv,instrument='--instrument' in sys.argv))
