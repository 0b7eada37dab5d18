#!/usr/bin/env python3
"""One-off generator: reads the public API of /repo and writes sim/src/ops_gen.rs, the
catalogue of concrete calls (one line per public function, operator spelling and shape).
The result is committed; checks never run this."""
import re, json, glob, os, sys, itertools
HERE=os.path.dirname(os.path.abspath(__file__))
SHAPES=[(1,1),(2,2),(3,3),(4,4),(1,2),(1,3),(1,4),(2,3),(3,2),(2,4),(4,2),(3,4),(4,3),(4,1),(5,5),(6,2)]
DROP=set()
dp=os.path.join(HERE,'gen_ops.drop')
if os.path.exists(dp): DROP=set(l.rstrip('\n') for l in open(dp))

def match(src,i,o,c):
    d=0
    while True:
        if src[i]==o:d+=1
        elif src[i]==c:
            d-=1
            if d==0:return i
        i+=1
def header_end(src,i):
    d=0
    while True:
        ch=src[i]
        if ch in '([':d+=1
        elif ch in ')]':d-=1
        elif ch in '{;' and d==0:return i
        i+=1
norm=lambda s:' '.join(s.split())
def split_top(s):
    out=[];d=0;cur=''
    for i,ch in enumerate(s):
        if ch in '<([':d+=1
        elif ch in ')]':d-=1
        elif ch=='>' and s[i-1]!='-':d-=1
        if ch==',' and d==0: out.append(cur.strip());cur=''
        else: cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out
def angle(s,i):
    d=0
    for j in range(i,len(s)):
        if s[j]=='<':d+=1
        elif s[j]=='>' and s[j-1]!='-':
            d-=1
            if d==0:return j
def parse():
    out=[]
    for f in sorted(glob.glob('/repo/crates/*/src/*.rs')):
        src=re.sub(r'//[^\n]*','',open(f).read())
        src=re.sub(r'#!?\[[^\]]*\]','',src)
        for m in re.finditer(r'(?m)^impl\b',src):
            e=header_end(src,m.end())
            if src[e]!='{':continue
            hdr=norm(src[m.start():e]); be=match(src,e,'{','}'); body=src[e+1:be]
            fns=[];pos=0
            while True:
                mm=re.compile(r'(?m)^\s*(pub(?:\([a-z]+\))? )?(?:const )?(?:unsafe )?fn\s').search(body,pos)
                if not mm:break
                he=header_end(body,mm.end())
                fns.append((bool(mm.group(1)),norm(body[mm.start():he])))
                pos=match(body,he,'{','}')
            out.append((f.split('/')[-1],hdr,fns))
    return out
ALIAS={}
for n in range(1,5):
    ALIAS['Vector%d'%n]='Vector<S, %d>'%n; ALIAS['Point%d'%n]='Point<S, %d>'%n
    ALIAS['Matrix%d'%n]='Matrix<S, %d, %d>'%(n,n)
    for k in range(1,5): ALIAS['Matrix%dx%d'%(n,k)]='Matrix<S, %d, %d>'%(n,k)
for n in (2,3):
    for t in ('Rotation','Isometry','Similarity','Translation','Scale','Shear','Reflection'): ALIAS['%s%d'%(t,n)]='%s<S, %d>'%(t,n)
    ALIAS['Transform%d'%n]='Transform<S, %d, %d>'%(n,n+1)
def conc(t,env):
    t=re.sub(r"'[ab] ?",'',t)
    for k,v in ALIAS.items(): t=re.sub(r'\b%s<S>'%k,v,t)
    for k,v in env.items(): t=re.sub(r'\b%s\b'%k,str(v),t)
    return t.strip()
def envs(hdr,file,consts):
    c=tuple(consts)
    big=file in('vector.rs',)
    tr=file in('translation.rs','rotation.rs','scale.rs','shear.rs','reflection.rs','isometry.rs','isometry_ops.rs','similarity.rs','transform.rs')
    if not c: return [{}]
    if c==('N',):
        if tr: ns=(2,3)
        elif file=='point.rs': ns=(1,2,3,6)
        elif file in('vector.rs','matrix.rs','normed.rs'): ns=(1,2,3,4)+((5,9) if file!='matrix.rs' else (5,))
        else: ns=(1,2,3,4)
        return [dict(N=n) for n in ns]
    if c==('N','NPLUS1'): return [dict(N=n,NPLUS1=n+1) for n in ((2,3) if tr else (1,2,3))]
    if c==('N','NMINUS1'): return [dict(N=n,NMINUS1=n-1) for n in (2,3,4)]
    if c==('N','NN'): return [dict(N=n,NN=n*n) for n in (2,3)]
    if c==('N','NPLUS1','NP1NP1'): return [dict(N=n,NPLUS1=n+1,NP1NP1=(n+1)**2) for n in (2,3)]
    if c==('R','C'): return [dict(R=r,C=k) for r,k in SHAPES]
    if c==('R','C','RC'): return [dict(R=r,C=k,RC=r*k) for r,k in SHAPES]
    if c==('M','N'): return [dict(M=m,N=n) for m in (1,2,3) for n in (2,3,4) if m<n]
    if c==('R1','C1'): return [dict(R1=r,C1=k) for r,k in SHAPES]
    if c[:4]==('R1','C1','R2','C2'):
        return [dict(R1=a,C1=b,R2=c2,C2=d,R1C2=a*d) for a,b in SHAPES for c2,d in SHAPES if b==c2 and (a,d) in SHAPES]
    raise Exception(str(c)+hdr)
def tier(where):
    if 'SimdScalarFloat' in where or 'Angle' in where: return 'fl'
    if 'SimdScalarSigned' in where: return 'sg'
    return 'sc'
lines={'sc':[],'sg':[],'fl':[]}
seen=set()
PARTIAL=re.compile(r'^(Matrix<S, \d, \d>|Complex<S>|Quaternion<S>|Transform<S, \d, \d>)::inverse$|^Transform<.*apply_point|^&?Transform.*(\*).*Point|^Quaternion<S>::atan$|^SimdScalarOrd::clamp$')
def emit(t,name,args,expr):
    """args: list of (kind,ident,type) kind in ref,mut"""
    if name in seen: return
    seen.add(name)
    if name in DROP: return
    flags=[]
    if any(k=='mut' for k,_,_ in args): flags.append('INPLACE')
    base=re.sub(r' \[.*','',name)
    if PARTIAL.search(base): flags.append('PARTIAL')
    if re.match(r'(Isometry|Similarity)<S, \d>::inverse_mut$',name): flags.append('MULTI')
    a=', '.join('%s %s: %s'%x for x in args)
    lines[t].append('    op!(v, "%s", %s, (%s) => %s);'%(name,'|'.join(flags) or '0',a,expr))
def arg(ty,env,selfty):
    """returns list of variants (type, pass-expr fmt, kind) or None"""
    ty=ty.replace('Self::Output','S') if selfty is None else ty
    if ty=='A': return [('Radians<S>','{}','ref'),('Degrees<S>','{}','ref')]
    if ty=='&Euler<A>': return [('Euler<Radians<S>>','&{}','ref'),('Euler<Degrees<S>>','&{}','ref')]
    if ty=='Euler<A>': return [('Euler<Radians<S>>','{}','ref'),('Euler<Degrees<S>>','{}','ref')]
    if ty in('u32','i32'): return [('Small','{}.0 as '+ty,'ref')]
    if ty=='usize' or 'impl' in ty or ty in('F','T') or '*' in ty or '(usize' in ty: return None
    if ty.startswith('&mut '): return [(conc(ty[5:].replace('Self',selfty),env),'&mut {}','mut')]
    if ty.startswith('&'): return [(conc(re.sub(r"^&('\w+ )?",'',ty).replace('Self',selfty),env),'&{}','ref')]
    return [(conc(ty.replace('Self',selfty),env),'{}','ref')]
OPS=dict(Add='+',Sub='-',Mul='*',Div='/',Rem='%')
for file,hdr,fns in parse():
    if file in('constraint.rs','coordinates.rs','unit.rs') or (file=='lib.rs' and not re.match(r"impl<('\w+, )*S>",hdr)): continue
    if '$' in hdr or 'approx_cmp' in hdr: continue
    i=hdr.index('<') if hdr.startswith('impl<') else None
    gen='' ;rest=hdr[4:].strip()
    if i is not None:
        j=angle(hdr,i); gen=hdr[i+1:j]; rest=hdr[j+1:].strip()
    where=''
    if ' where ' in rest: rest,where=rest.split(' where ',1)
    consts=re.findall(r'const (\w+): usize',gen)
    if ' for ' in rest: tr,ty=rest.split(' for ',1)
    else: tr,ty=None,rest
    if any(x in ty for x in('Tol<','Diff<')) : continue
    if tr and ('fmt::' in tr or tr.startswith(('Norm<','AsRef','AsMut','ops::Index','ops::Deref'))): continue
    if ty in('L1Norm','L2Norm','LinfNorm','LpNorm','L1MatrixNorm','FrobeniusNorm','LinfMatrixNorm'): continue
    t=tier(where+gen)
    if file=='shear.rs' and t=='sc': t='sg'
    tys=[ty]
    if '<A>' in ty: tys=[ty.replace('<A>','<Radians<S>>'),ty.replace('<A>','<Degrees<S>>')]
    for ty in tys:
      for env in envs(hdr,file,consts):
        st=conc(ty.lstrip('&').replace("'a ",'').replace("'b ",''),env); selfref=ty.startswith('&')
        if tr is None or tr in('Normed','Default','Angle'):
            for pub,sig in fns:
                if tr is None and not pub: continue
                m=re.search(r'fn (\w+)(<.*?>)?\s*\(',sig)
                name=m.group(1); k=m.end()-1; ke=match(sig,k,'(',')')
                params=[x for x in split_top(sig[k+1:ke]) if x]
                tail=sig[ke+1:].strip()
                ret=tail.split(' where ')[0].replace('->','').strip(); fw=tail
                if '*' in ret or ret.startswith('&mut') or name in('as_mut_ptr','as_ptr'): continue
                envl=[env]
                g=m.group(2) or ''
                if 'const R2' in g:
                    envl=[]
                    for r2,c2 in SHAPES:
                        e=dict(env,R2=r2,C2=c2)
                        if name=='dot' and (r2,c2)==(e['R1'],e['C1']): envl.append(e)
                        if name=='tr_mul' and r2==e['R1'] and (e['C1'],c2) in SHAPES: envl.append(e)
                        if name=='tr_dot' and c2==e['R1'] and r2==e['C1']: envl.append(e)
                if 'F' in re.findall(r'\w+',g) or re.search(r'\bT\b',g): continue
                tt=t
                if tr is not None or 'Into<Radians' in fw: tt='fl' if tr!='Default' else t
                for e in envl:
                    slots=[];ok=True;recv=None
                    for q in params:
                        if q in('&self','self','mut self','&mut self'): recv=q; continue
                        _,_,aty=q.partition(':')
                        aty=aty.strip()
                        if aty=='Self::Output' or aty=='Self::Dimensionless' or aty=='T::Output': aty='S'
                        v=arg(aty,e,st)
                        if aty=='A' and st.startswith('Euler<'): v=[(st[6:-1],'{}','ref')]
                        if v is None: ok=False;break
                        slots.append(v)
                    if not ok: continue
                    for combo in itertools.product(*slots):
                        args=[];call=[]
                        if recv: args.append(('mut' if recv=='&mut self' else 'ref','a',st))
                        for n,(aty,fm,kind) in enumerate(combo):
                            idn='bcdefghijklmnopqrstuvwxyz'[n]; args.append((kind,idn,aty)); call.append(fm.format(idn))
                        q='<%s as %s>'%(st,tr) if tr else '<%s>'%st
                        nm='%s::%s'%(st,name)
                        if tr and tr!='Default': nm='<%s as %s>::%s'%(st,tr,name)
                        if e is not env: nm+=' (%dx%d)'%(e['R2'],e['C2'])
                        if any('Degrees' in x[0] for x in combo): nm+=' [deg]'
                        r='' if recv is None else {'&self':'&a','self':'a','mut self':'a','&mut self':'&mut a'}[recv]
                        emit(tt,nm,args,'%s::%s(%s)'%(q,name,', '.join(([r] if r else [])+call)))
        else:
            m=re.match(r'ops::(Add|Sub|Mul|Div|Rem)(Assign)?<(.*)>$',tr)
            if m:
                rhs=m.group(3); rref=rhs.startswith('&')
                rt=conc(re.sub(r"^&('\w+ )?",'',rhs),env)
                sym=OPS[m.group(1)]
                if m.group(2): emit(t,'%s %s= %s%s'%(st,sym,'&' if rref else '',rt),[('mut','a',st),('ref','b',rt)],'a %s= %sb'%(sym,'&' if rref else ''))
                else: emit(t,'%s%s %s %s%s'%('&' if selfref else '',st,sym,'&' if rref else '',rt),[('ref','a',st),('ref','b',rt)],'%sa %s %sb'%('&' if selfref else '',sym,'&' if rref else ''))
            elif tr=='ops::Neg':
                emit(t,'-%s%s'%('&' if selfref else '',st),[('ref','a',st)],'-%sa'%('&' if selfref else ''))
            elif tr.startswith('From<'):
                src=tr[5:-1]
                for s2 in ([src] if 'Euler<A>' not in src else [src.replace('<A>','<Radians<S>>'),src.replace('<A>','<Degrees<S>>')]):
                    sref=s2.startswith('&'); s3=conc(re.sub(r"^&('\w+ )?",'',s2),env)
                    if '$' in s3: continue
                    tg=('&' if selfref else '')+st
                    emit(t,'%s::from(%s%s)'%(tg,'&' if sref else '',s3),[('ref','a',s3)],'<%s>::from(%sa)'%(tg,'&' if sref else ''))
            else: print('SKIP',hdr,file=sys.stderr)
# macro-made scalar operators
for n in(1,2,3,4,5,9):
    for o in('*','/','%'):
        for r in('','&'):
            emit('sc','%sVector<S, %d> %s S'%(r,n,o),[('ref','a','Vector<S, %d>'%n),('ref','b','S')],'%sa %s b'%(r,o))

# ---- calls the signatures alone do not give ----
SCT=['Vector<S, %d>'%n for n in (1,2,3,4,5,9)]+['Point<S, %d>'%n for n in (1,2,3,6)]+['Matrix<S, %d, %d>'%x for x in SHAPES]+['Complex<S>','Quaternion<S>']+['Scale<S, 2>','Scale<S, 3>','Transform<S, 2, 3>','Transform<S, 3, 4>']
SGT=['Translation<S, 2>','Translation<S, 3>','Shear<S, 2>','Shear<S, 3>']
FLT=['%s<S, %d>'%(t,n) for t in('Rotation','Isometry','Similarity','Reflection') for n in (2,3)]+['Radians<S>','Degrees<S>','Euler<Radians<S>>','Euler<Degrees<S>>','Perspective3<S>','Orthographic3<S>','Unit<Vector<S, 3>>','Unit<Quaternion<S>>','Unit<Complex<S>>']
NUMT=set(SCT)
for t,tys in(('sc',SCT),('sg',SGT),('fl',FLT)):
    for ty in tys:
        emit(t,'%s == %s'%(ty,ty),[('ref','a',ty),('ref','b',ty)],'a == b')
        emit(t,'%s != self'%ty,[('ref','a',ty)],'a != a.clone()')
        for spec in('{}','{:?}','{:#?}','{:.3}','{:>14.2}','{:+}','{:#}','{:09.1?}','{:-<60.30}'):
            emit(t,'%s render %s'%(ty,spec),[('ref','a',ty)],'crate::sink::render(format_args!("%s", a))'%spec)
            lines[t][-1]=lines[t][-1].replace('", 0,','", RENDER,')
        emit(t,'%s clone'%ty,[('ref','a',ty)],'a.clone()')
idx=lambda n:[('ref','i','Idx<%d>'%n),('ref','j','Idx<%d>'%n)]
for r,k in SHAPES:
    ty='Matrix<S, %d, %d>'%(r,k)
    emit('sc',ty+'::row',[('ref','a',ty),('ref','i','Idx<%d>'%r)],'a.row(i.0)')
    emit('sc',ty+'::column',[('ref','a',ty),('ref','i','Idx<%d>'%k)],'a.column(i.0)')
    emit('sc',ty+'::swap_rows',[('mut','a',ty)]+idx(r),'a.swap_rows(i.0, j.0)')
    emit('sc',ty+'::swap_columns',[('mut','a',ty)]+idx(k),'a.swap_columns(i.0, j.0)')
    emit('sc',ty+'::swap',[('mut','a',ty),('ref','i','Idx<%d>'%k),('ref','j','Idx<%d>'%r),('ref','l','Idx<%d>'%k),('ref','m','Idx<%d>'%r)],'a.swap((i.0, j.0), (l.0, m.0))')
    emit('sc',ty+'::map',[('ref','a',ty)],'{ let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) }')
    emit('sc',ty+'::index',[('ref','a',ty),('ref','i','Idx<%d>'%k),('ref','j','Idx<%d>'%r)],'(a[i.0][j.0], a[(i.0, j.0)])')
    emit('sc',ty+'::index_mut',[('mut','a',ty),('ref','b','S'),('ref','i','Idx<%d>'%k),('ref','j','Idx<%d>'%r)],'a[i.0][j.0] = b')
    emit('sc',ty+'::index_mut pair',[('mut','a',ty),('ref','b','S'),('ref','i','Idx<%d>'%k),('ref','j','Idx<%d>'%r)],'a[(i.0, j.0)] = b')
    for d in('f64','f32','i32','u8'): emit('sc',ty+'::try_cast '+d,[('ref','a',ty)],'a.try_cast::<%s>()'%d)
    emit('sg',ty+'::apply_norm L1',[('ref','a',ty)],'a.apply_norm(&L1MatrixNorm::new())')
    emit('sg',ty+'::apply_norm Linf',[('ref','a',ty)],'a.apply_norm(&LinfMatrixNorm::new())')
    emit('fl',ty+'::apply_norm Fro',[('ref','a',ty)],'a.apply_norm(&FrobeniusNorm::new())')
    emit('sg',ty+'::apply_metric L1',[('ref','a',ty),('ref','b',ty)],'a.apply_metric_distance(&b, &L1MatrixNorm::new())')
    emit('sg',ty+'::apply_metric Linf',[('ref','a',ty),('ref','b',ty)],'a.apply_metric_distance(&b, &LinfMatrixNorm::new())')
    emit('fl',ty+'::apply_metric Fro',[('ref','a',ty),('ref','b',ty)],'a.apply_metric_distance(&b, &FrobeniusNorm::new())')
for n in(1,2,3,4,5,9):
    ty='Vector<S, %d>'%n
    for nm,tt in(('L1Norm','sg'),('LinfNorm','sg'),('L2Norm','fl')):
        emit(tt,ty+'::apply_norm '+nm,[('ref','a',ty)],'a.apply_norm(&%s::new())'%nm)
        emit(tt,ty+'::apply_metric '+nm,[('ref','a',ty),('ref','b',ty)],'a.apply_metric_distance(&b, &%s::new())'%nm)
    emit('fl',ty+'::apply_norm Lp',[('ref','a',ty),('ref','p','Small')],'a.apply_norm(&LpNorm::new(p.0 as u32))')
    emit('fl',ty+'::apply_metric Lp',[('ref','a',ty),('ref','b',ty),('ref','p','Small')],'a.apply_metric_distance(&b, &LpNorm::new(p.0 as u32))')
    emit('fl',ty+'::lp_norm',[('ref','a',ty),('ref','p','Small')],'a.lp_norm(p.0 as u32)')
for ty,n in([('Vector<S, %d>'%n,n) for n in(1,2,3,4,5,9)]+[('Point<S, %d>'%n,n) for n in(1,2,3,6)]+[('Complex<S>',2),('Quaternion<S>',4)]):
    emit('sc',ty+'::map',[('ref','a',ty)],'{ let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) }')
    emit('sc',ty+'::index',[('ref','a',ty),('ref','i','Idx<%d>'%n)],'a[i.0]')
    emit('sc',ty+'::index_mut',[('mut','a',ty),('ref','b','S'),('ref','i','Idx<%d>'%n)],'a[i.0] = b')
    for d in('f64','f32','i32','u8'): emit('sc',ty+'::try_cast '+d,[('ref','a',ty)],'a.try_cast::<%s>()'%d)
for ty in['Vector<S, %d>'%n for n in(1,2,3,4,5,9)]+['Quaternion<S>','Complex<S>','Matrix<S, 2, 2>','Matrix<S, 3, 3>','Matrix<S, 4, 4>','Matrix<S, 2, 3>']:
    emit('fl','Unit<%s>::from_value'%ty,[('ref','a',ty)],'Unit::from_value(a)')
    emit('fl','Unit<%s>::from_value_with_norm'%ty,[('ref','a',ty)],'Unit::from_value_with_norm(a)')
    emit('fl','Unit<%s>::try_from_value'%ty,[('ref','a',ty),('ref','b','S')],'Unit::try_from_value(a, b)')
    emit('fl','Unit<%s>::try_from_value_with_norm'%ty,[('ref','a',ty),('ref','b','S')],'Unit::try_from_value_with_norm(a, b)')
    emit('fl','Unit<%s>::into_inner'%ty,[('ref','a','Unit<%s>'%ty)],'a.into_inner()')
# approximate comparisons
APX=SCT+SGT+FLT
for ty in APX:
    inner=ty.startswith('Unit<')
    al=[('ref','a',ty),('ref','b',ty),('ref','t','S')]
    al2=al+[('ref','u','S')]
    emit('fl',ty+' abs_diff_all_eq',al,'a.abs_diff_all_eq(&b, &t)')
    emit('fl',ty+' relative_all_eq',al2,'a.relative_all_eq(&b, &t, &u)')
    emit('fl',ty+' ulps_all_eq',al,'a.ulps_all_eq(&b, &t, &S::default_max_ulps())')
    emit('fl',ty+' AssertAbsDiffEq::debug_abs_diff',al[:2],'DD(AssertAbsDiffEq::debug_abs_diff(&a, &b))')
    emit('fl',ty+' AssertUlpsEq::debug_ulps_diff',al[:2],'DD(AssertUlpsEq::debug_ulps_diff(&a, &b))')
    emit('fl',ty+' AssertAbsDiffAllEq::debug',al,'DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t))')
    emit('fl',ty+' AssertRelativeAllEq::debug',al,'DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t)))')
    emit('fl',ty+' AssertUlpsAllEq::debug',al,'DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps())))')
for ty,tol in([('Vector<S, %d>'%n,)*2 for n in(1,2,3,4,5,9)]+[('Point<S, %d>'%n,'Vector<S, %d>'%n) for n in(1,2,3,6)]+[('Matrix<S, %d, %d>'%x,)*2 for x in SHAPES]+[('Complex<S>','Complex<S>'),('Quaternion<S>','Vector<S, 4>'),('Radians<S>','S'),('Degrees<S>','S')]):
    al=[('ref','a',ty),('ref','b',ty),('ref','t',tol)]
    emit('fl',ty+' abs_diff_eq',al,'AbsDiffEq::abs_diff_eq(&a, &b, &t)')
    emit('fl',ty+' abs_diff_ne',al,'AbsDiffEq::abs_diff_ne(&a, &b, &t)')
    emit('fl',ty+' relative_eq',al+[('ref','u',tol)],'RelativeEq::relative_eq(&a, &b, &t, &u)')
    emit('fl',ty+' AssertRelativeEq::debug',al,'DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t)))')
    emit('fl',ty+' AssertAbsDiffEq::debug_tolerance',al,'DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t))')
# the angle trait's provided functions
asrc=re.sub(r'//[^\n]*','',open('/repo/crates/cglinalg_trigonometry/src/lib.rs').read())
m=re.search(r'(?m)^pub trait Angle\b',asrc); e=asrc.index('{',asrc.index('where',m.end())); body=asrc[e:match(asrc,e,'{','}')]
for name,ps in re.findall(r'fn (\w+)\(([^)]*)\)',body):
    for ty in('Radians<S>','Degrees<S>'):
        args=[];call=[]
        for n,q in enumerate([x for x in ps.split(',') if x.strip()]):
            idn='abcde'[n]; args.append(('ref',idn,'S' if 'Dimensionless' in q else ty)); call.append(idn)
        emit('fl','<%s as Angle>::%s'%(ty,name),args,'<%s as Angle>::%s(%s)'%(ty,name,', '.join(call)))
# scalar functions of the numeric crate
src=open('/repo/crates/cglinalg_numeric/src/lib.rs').read()
for trn,tt in(('SimdScalarSigned','sg'),('SimdScalarOrd','sg'),('SimdScalarFloat','fl'),('SimdScalarBounded','fl')):
    m=re.search(r'(?m)^pub trait %s\b'%trn,src); e=src.index('{',m.end()); body=src[e:match(src,e,'{','}')]
    for name,ps in re.findall(r'fn (\w+)\(([^)]*)\)',re.sub(r'//[^\n]*','',body)):
        args=[];call=[]
        for n,q in enumerate([x for x in ps.split(',') if x.strip()]):
            idn='abcde'[n]
            if 'i32' in q: args.append(('ref',idn,'Small')); call.append(idn+'.0 as i32')
            else: args.append(('ref',idn,'S')); call.append(idn)
        fl=emit(tt,'%s::%s'%(trn,name),args,'<S as %s>::%s(%s)'%(trn,name,', '.join(call)))
for d in('f64','f32','i32','u32','i64','u8'):
    emit('sc','try_cast '+d,[('ref','a','S')],'cglinalg_numeric::try_cast::<S, %s>(a)'%d)

for ty,tol,mk in([('Translation<S, %d>'%n,'Vector<S, %d>'%n,'TranslationTol::from({})') for n in(2,3)]+[('Scale<S, %d>'%n,'Vector<S, %d>'%n,'ScaleTol::from({})') for n in(2,3)]
  +[('Rotation<S, %d>'%n,'Matrix<S, %d, %d>'%(n,n),'RotationTol::from({})') for n in(2,3)]+[('Perspective3<S>','Matrix<S, 4, 4>','Perspective3Tol::from({})'),('Orthographic3<S>','Matrix<S, 4, 4>','Orthographic3Tol::from({})')]):
    al=[('ref','a',ty),('ref','b',ty),('ref','t',tol)]
    m1=mk.format('t')
    emit('fl',ty+' abs_diff_eq',al,'AbsDiffEq::abs_diff_eq(&a, &b, &%s)'%m1)
    emit('fl',ty+' relative_eq',al,'RelativeEq::relative_eq(&a, &b, &%s, &%s)'%(m1,m1))
    emit('fl',ty+' AssertRelativeEq::debug',al,'DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &{0}), AssertRelativeEq::debug_relative_tolerance(&a, &b, &{0})))'.format(m1))
for n in(2,3):
    V='Vector<S, %d>'%n; M='Matrix<S, %d, %d>'%(n,n)
    for ty,ps,mk in(('Isometry<S, %d>'%n,[V,M],'IsometryTol::from_parts(t0, t1)'),('Similarity<S, %d>'%n,[V,M,'S'],'SimilarityTol::from_parts(t0, t1, t2)'),('Reflection<S, %d>'%n,[V,V],'ReflectionTol::from_parts(t0, t1)'),('Shear<S, %d>'%n,['S',V,V,V],'ShearTol::from_parts(t0, t1, t2, t3)')):
        al=[('ref','a',ty),('ref','b',ty)]+[('ref','t%d'%i,q) for i,q in enumerate(ps)]
        emit('fl',ty+' abs_diff_eq',al,'AbsDiffEq::abs_diff_eq(&a, &b, &%s)'%mk)
        emit('fl',ty+' relative_eq',al,'RelativeEq::relative_eq(&a, &b, &%s, &%s)'%(mk,mk))
        emit('fl',ty+' AssertRelativeEq::debug',al,'DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &{0}), AssertRelativeEq::debug_relative_tolerance(&a, &b, &{0})))'.format(mk))
# scalar on the left (primitive scalars only)
lines['pr']=[]
for ty in['Vector<S, %d>'%n for n in(1,2,3,4,5,9)]+['Matrix<S, %d, %d>'%x for x in SHAPES]+['Quaternion<S>']:
    for r in('','&'): emit('pr','S * %s%s'%(r,ty),[('ref','a','S'),('ref','b',ty)],'a * %sb'%r)
for n in(1,2,3,6): emit('pr','S * Point<S, %d>'%n,[('ref','a','S'),('ref','b','Point<S, %d>'%n)],'a * b')
for o in'+-*/':
    for r in('','&'): emit('pr','S %s %sComplex<S>'%(o,r),[('ref','a','S'),('ref','b','Complex<S>')],'a %s %sb'%(o,r))
out='// @generated by tools/gen_ops.py - the catalogue of concrete calls into the library.\n#![allow(unused_imports)]\nuse crate::ctx::*;\nuse crate::sc::*;\nuse cglinalg_core::*;\nuse cglinalg_transform::*;\nuse cglinalg_trigonometry::*;\nuse cglinalg_numeric::*;\nuse approx_cmp::*;\n'
CH=40
for t,bound in(('sc','Sc'),('sg','Sg'),('fl','Fl')):
    parts=[lines[t][i:i+CH] for i in range(0,len(lines[t]),CH)]
    for k,pt in enumerate(parts):
        out+='mod %s_%d {\nuse super::*;\n#[inline(never)]\npub fn reg<S: %s>(v: &mut Vec<Op>) {\n%s\n}\n}\n'%(t,k,bound,'\n'.join(pt))
    out+='pub fn reg_%s<S: %s>(v: &mut Vec<Op>) {\n%s\n}\n'%(t,bound,'\n'.join('    %s_%d::reg::<S>(v);'%(t,k) for k in range(len(parts))))
for k in('f64','f32','i32','u32'):
    out+='pub mod pr_%s {\nuse super::*;\ntype S = %s;\npub fn reg(v: &mut Vec<Op>) {\n%s\n}\n}\n'%(k,k,'\n'.join(l for l in lines['pr'] if k!='u32' or 'S /' not in l))
open(os.path.join(HERE,'..','sim','src','ops_gen.rs'),'w').write(out)
print({k:len(v) for k,v in lines.items()})
