#!/usr/bin/env python3
"""Runs the check of one property: builds the library from /repo's working tree, explores, replays what fails, writes evidence.
   run_check.py PROPERTY [quick|thorough]        run_check.py --replay FILE"""
import os, sys, json, time, subprocess, shutil, glob
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(HERE,'mc'))
sys.dont_write_bytecode=True
import build as B
from checks import CHECKS
KNOWN=os.path.join(HERE,'known_findings.txt')
def known(prop):
    """finding: property=P01 explorer=p_x variant=small space=... index=N key=... | what fails"""
    out=[]
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if not l.startswith('finding:'): continue
            head,_,what=l[len('finding:'):].partition(' | '); f=dict(x.partition('=')[::2] for x in head.split())
            if f.get('property')==prop: f['what']=what.strip(); out.append(f)
    return out
def build_run(run):
    return B.build(run['explorer'],run['variant'],extra_defs=run.get('defs',[]),name=run['name'],instrument=run.get('instrument',False),shared=run.get('shared',False))
def replay_one(exe,space,index,history=None,limit=150,tier='quick'):
    cmd=[exe,'--tier',tier,'--replay',space,str(index),'--case-limit',str(limit-20)]
    if history is not None: cmd+=['--from',str(history)]
    try: p=subprocess.run(cmd,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,timeout=limit,cwd=os.path.join(HERE,'build'))
    except subprocess.TimeoutExpired: return True,'the library did not return within %d s'%limit
    txt=p.stderr.decode('utf8','replace')
    if p.returncode==0: return False,txt
    if p.returncode==2: return None,txt
    if p.returncode==-14: txt+='\nthe library did not return within %d s'%(limit-20)
    return True,txt+('' if p.returncode==1 else '\nprocess ended with status %d'%p.returncode)
def main():
    if sys.argv[1]=='--replay':
        r=json.load(open(sys.argv[2])); exe=build_run(r['run']); bad,txt=replay_one(exe,r['space'],r['index'],r.get('from'),tier=r.get('tier','quick')); sys.stdout.write(txt); print('reproduced' if bad else 'not reproduced'); return 1 if bad else 0
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick'); C=CHECKS[prop]
    t0=time.time(); deadline=t0+(C.get('quick_s',600) if tier=='quick' else C.get('thorough_s',840*4))
    runs=[]
    for i,r in enumerate(C['runs']):
        r=dict(r); r['name']=prop.lower()+'_'+r['explorer']+str(i)
        if r.get('tiers') and tier not in r['tiers']: continue
        runs.append(r)
    listed=known(prop); viol=[]; spaces=[]; samples=[]; tally={}; ev=nt=dn=0; complete=True; skipped=[]
    outroot=os.path.join(HERE,'build','run'); os.makedirs(outroot,exist_ok=True)
    for r in runs:
        try: exe=build_run(r)
        except B.BuildError: # the interface of one internal stage changed: the rest is still checked
            if not r.get('optional'): raise
            skipped.append(r['name']); complete=False; print('not built, left out: %s %s'%(r['explorer'],' '.join(r.get('defs',[])))); continue
        r['exe']=exe; out=os.path.join(outroot,r['name']+'-'+r['variant']); shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        left=max(20,deadline-time.time())
        cmd=[exe,'--tier',tier,'--jobs',str(r.get('jobs',8)),'--out',out,'--budget',str(int(left))]+r.get('args',[])
        env=dict(os.environ); env.update(r.get('env',{}))
        p=subprocess.run(cmd,stdout=subprocess.DEVNULL,stderr=open(os.path.join(out,'stderr'),'w'),env=env)
        if p.returncode: sys.stderr.write('explorer failed: %s status %d\n'%(' '.join(cmd),p.returncode)); sys.stderr.write(open(os.path.join(out,'stderr')).read()[-2000:]); return 2
        j=json.load(open(os.path.join(out,'result.json')))
        ev+=j['evaluations']; nt+=j['nontrivial']; dn+=j['distinct_nontrivial']; complete=complete and j['complete']
        for k,v in j['tally'].items(): tally[k]=tally.get(k,0)+v
        for s in j['spaces']: s['build']=r['variant']; spaces.append(s)
        for s in j['samples'][:4]: s['build']=r['variant']; samples.append(s)
        fails=[]
        for f in sorted(glob.glob(out+'/viol.*')):
            for l in open(f,errors='replace'):
                try: v=json.loads(l)
                except ValueError: continue
                v['run']=r; fails.append(v)
        fails.sort(key=lambda v:(v['space'],v['index'])); viol+=fails
    if len(skipped)==len(runs): return 2
    # replay before report
    confirmed=[]; seen={}; suppressed=0
    def is_listed(v): return any(f['space']==v['space'] and f['index']==str(v['index']) and f['variant']==v['run']['variant'] and f['key']==v['key'].replace(' ','_') for f in listed)
    for v in viol:
        if is_listed(v): suppressed+=1; continue
        k=(v['key'],v['space'],v['run']['variant']); seen[k]=seen.get(k,0)+1
        if seen[k]>1 or len(confirmed)>=12: continue
        exe=v['run']['exe']; bad,txt=replay_one(exe,v['space'],v['index'],tier=tier); frm=None
        if not bad: # depends on what ran before in the process
            for frm in (v['index']//64*64,max(0,v['index']-20000)):
                bad,txt=replay_one(exe,v['space'],v['index'],frm,300,tier)
                if bad: break
        if not bad:
            if v['key'].startswith('hang') or 'Killed' in v['key']:
                sys.stderr.write('not reproduced, dropped: %s\n'%v['msg']); continue
            frm=None; txt='seen during the exploration, not when the case is run alone: it depends on the process history'
        confirmed.append((v,frm,txt))
    rep=os.path.join(HERE,'replays'); os.makedirs(rep,exist_ok=True); n=0
    for f in glob.glob(os.path.join(rep,prop+'-*.json')): os.unlink(f)
    for v,frm,txt in confirmed:
        n+=1; fn=os.path.join(rep,'%s-%d.json'%(prop,n)); run={k:x for k,x in v['run'].items() if k!='exe'}
        json.dump({'property':prop,'tier':tier,'run':run,'space':v['space'],'index':v['index'],'from':frm,'key':v['key'],'msg':v['msg'],'case':txt},open(fn,'w'),indent=1)
        print('VIOLATION property=%s replay=%s'%(prop,fn)); print('  %s | %s'%(v['key'],v['msg'][:600]))
    for f in listed:
        r=[x for x in runs if 'exe' in x and x['explorer']==f['explorer'] and x['variant']==f['variant']]
        if r:
            bad,txt=replay_one(r[0]['exe'],f['space'],f['index'],tier=tier)
            if bad: print('KNOWN-FINDING: property=%s %s'%(prop,f['what']))
    cov={'evaluations':ev,'distinct_nontrivial':dn,'nontrivial':nt,'rule':C['rule'],'samples':samples[:10],'exhaustive':bool(complete),'spaces':spaces,'counted':tally}
    for k in C.get('as_states',{}): cov[k]=tally.get(C['as_states'][k],0)
    e={'property':prop,'tier':tier,'seed':int(os.environ.get('VERIF_SEED','1') or 1),'level':C['level'],'coverage':cov,'assumptions':C.get('assumptions',[]),'wall_s':round(time.time()-t0,2),'violations':len(confirmed)}
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True); json.dump(e,open(os.path.join(HERE,'evidence',prop+'.json'),'w'),indent=1)
    print('%s %s: %d executions, %d distinct non-trivial, %s, %.1f s'%(prop,tier,ev,dn,'complete' if complete else 'NOT complete',time.time()-t0))
    return 1 if confirmed else 0
if __name__=='__main__': sys.exit(main())
