#!/usr/bin/env python3
"""check.py <property>: build the harness against /repo's working tree and run that property's exploration.
Exit 0: held on everything explored; 1: violated (VIOLATION line printed); 2: error of the check itself."""
import os, resource, signal, subprocess, sys, json, time
V='/verif'
def env_from_sh():
    out=subprocess.run(['bash','-c','. /opt/vp/env.sh; env -0'],capture_output=True,check=True).stdout
    e=dict(kv.split(b'=',1) for kv in out.split(b'\0') if b'=' in kv)
    return {k.decode():v.decode() for k,v in e.items()}
def build(env,target,bins,features=None):
    H=f'{V}/fcheck' if os.path.exists(f'{V}/fcheck/src/bin/{bins[0]}.rs') else f'{V}/harness'
    e=dict(env); e['CARGO_TARGET_DIR']=target; e['CARGO_INCREMENTAL']='0'
    cmd=['cargo','build','--release','--offline','--locked','--manifest-path',f'{H}/Cargo.toml','-q']
    for b in bins: cmd+=['--bin',b]
    if features is not None: cmd+=['--no-default-features','--features',','.join(features)] if features else ['--no-default-features']
    r=subprocess.run(cmd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode!=0:
        print(r.stdout[-6000:]); print('check.py: build failed'); sys.exit(2)
    return f'{target}/release'
def limit():
    resource.setrlimit(resource.RLIMIT_AS,(28<<30,28<<30))
    resource.setrlimit(resource.RLIMIT_CORE,(0,0))
def run(path,env,timeout,args=()):
    try:
        r=subprocess.run([path,*args],env=env,cwd=V,timeout=timeout,preexec_fn=limit)
        rc=r.returncode
        if rc<0 and -rc in (signal.SIGSEGV,signal.SIGABRT,signal.SIGILL,signal.SIGFPE,signal.SIGBUS):
            # the exploration catches panics; a fatal signal means the code under test corrupted memory or aborted
            pid=os.path.basename(path).upper(); os.makedirs(f'{V}/replays',exist_ok=True)
            rp=f'{V}/replays/{pid}-signal.txt'
            open(rp,'w').write(f'property: {pid}\nthe exploration died with signal {-rc} inside the code under test\n\nreplay:\n  cd /verif && VERIF_DEBUG=1 python3 check.py {pid}\n')
            print(f'VIOLATION property={pid} replay={rp}'); return 1
        return rc
    except subprocess.TimeoutExpired:
        print(f'check.py: {path} exceeded {timeout} s'); return 2
def cpu_flavours():
    flags=set(open('/proc/cpuinfo').read().split())
    fl=[('generic','-C target-cpu=x86-64')]
    if {'gfni','avx512f','avx512bw','avx512vl','avx512dq','avx512cd','vpclmulqdq','avx512vbmi','avx512_vbmi2','avx2','vaes'}<=flags:
        fl.append(('gfni512','-C target-cpu=x86-64-v4 -C target-feature=+aes,+pclmulqdq,+vpclmulqdq,+gfni,+avx512vbmi,+avx512vbmi2'))
    if {'gfni','avx2','pclmulqdq'}<=flags:
        fl.append(('gfni256','-C target-cpu=x86-64-v3 -C target-feature=+aes,+pclmulqdq,+gfni'))
    return fl
def main():
    pid=sys.argv[1].upper(); b=pid.lower()
    env=env_from_sh()
    for k in ('VERIF_SEED','VERIF_TIER','VERIF_ONLY','VERIF_DEBUG'):
        if k in os.environ: env[k]=os.environ[k]
    if len(sys.argv)>2: env['VERIF_TIER']=sys.argv[2]
    env.setdefault('VERIF_SEED','1'); env.setdefault('VERIF_TIER','quick')
    env['RUST_BACKTRACE']='0'
    tmo=780 if env['VERIF_TIER']=='quick' else 7200
    t0=time.time()
    conf=json.load(open(f'{V}/checks.json')).get(pid,{})
    target=f'{V}/target/check'
    if conf.get('cfg'): env['RUSTFLAGS']=(env.get('RUSTFLAGS','')+' --cfg '+conf['cfg']).strip()
    d=build(env,target,[b])
    rcs=[run(f'{d}/{b}',env,tmo)]
    if rcs[0]==0: rcs+=extra(pid,conf,env,b,tmo,t0)
    rc=1 if 1 in rcs else (0 if all(r==0 for r in rcs) else 2)
    sys.exit(rc)
def extra(pid,conf,env,b,tmo,t0):
    """Further builds of the same exploration: other CPU flavours, sequential fallback. Their evidence is merged."""
    rcs=[]; parts=[]
    if conf.get('flavours'):
        for name,flags in cpu_flavours():
            e=dict(env); e['RUSTFLAGS']=flags+' --cfg verif_flavour'; e['VERIF_EVIDENCE_SUFFIX']='.'+name; e['VERIF_FLAVOUR']=name
            d=build(e,f'{V}/target/flavour-{name}',[b]); rcs.append(run(f'{d}/{b}',e,tmo)); parts.append(name)
            if rcs[-1]!=0: break
    if conf.get('sequential'):
        e=dict(env); e['VERIF_EVIDENCE_SUFFIX']='.seq'; e['VERIF_FLAVOUR']='seq'
        d=build(e,f'{V}/target/seq',[b],features=[]); rcs.append(run(f'{d}/{b}',e,tmo)); parts.append('seq')
    # merge evidence
    main=f'{V}/evidence/{pid}.json'
    try:
        m=json.load(open(main))
        for n in parts:
            f=f'{V}/evidence/{pid}.{n}.json'
            x=json.load(open(f)); os.remove(f)
            for k in ('states','transitions','traces_validated_against_impl'): m['coverage'][k]+=x['coverage'][k]
            m['coverage']['exhaustive']=m['coverage']['exhaustive'] and x['coverage']['exhaustive']
            for k,v in x['coverage']['subspaces'].items(): m['coverage']['subspaces'][f'{n}:{k}']=v
            m['wall_s']+=x['wall_s']; m['violations']+=x['violations']
        if parts: m['coverage'].setdefault('builds',[]).extend(['default']+parts)
        json.dump(m,open(main,'w'),indent=1)
    except FileNotFoundError as ex:
        print('check.py: evidence missing',ex); rcs.append(2)
    return rcs
main()
