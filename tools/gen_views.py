#!/usr/bin/env python3
"""One-off generator for sim/src/views_gen.rs: named coordinates, swizzles and tuple views.
Swizzle names come from the source; what each has to report comes from the name alone."""
import re, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L={'x':0,'y':1,'z':2,'w':3}
out=["//! Named coordinates, swizzles and tuple views (written by tools/gen_views.py).","use crate::hist::*;","use cglinalg_core::*;",""]
def swz(file,kind):
    src=open(f'/repo/crates/cglinalg_core/src/{file}').read()
    d={}
    for m in re.finditer(r'impl_swizzle!\(\s*(\w+)\(\)\s*=>\s*(\w+)\s*=>\s*(\w+)',src): d.setdefault(m.group(2),[]).append((m.group(1),m.group(3)))
    return d
tab={**swz('vector.rs','Vector'),**swz('point.rs','Point')}
def tup(n): return '('+', '.join(['E']*n)+(',)' if n==1 else ')')
for kind,mx in (('Vector',4),('Point',3)):
    for n in range(1,mx+1):
        T=f'{kind}{n}'
        out.append(f'pub fn {T.lower()}<E: El>(d: &mut Def<{T}<E>, E>) {{')
        arms=lambda pre: ', '.join((f'{i} => &mut {pre}{("xyzw"[i] if pre=="v." else i)}' if i<n-1 else f'_ => &mut {pre}{("xyzw"[i] if pre=="v." else i)}') for i in range(n))
        fields=', '.join(f'v.{"xyzw"[i]}' for i in range(n))
        tt=tup(n)
        setk=f'|m, p| {{ m[p.xi(0) as usize % {n}] = p.s(); Want::Done }}'
        out.append(f'    d.edit("named coordinate =", 0, |v, p| {{ *match p.xi(0) as usize % {n} {{ {arms("v.")} }} = p.s(); Got::Done }}, {setk});')
        out.append(f'    d.read("named coordinates", 0, |v, _| val(&[{fields}]), |m, _| Want::Val(words(m)));')
        out.append(f'    d.edit("as_mut::<tuple>().k =", 0, |v, p| {{ let t: &mut {tt} = v.as_mut(); *match p.xi(0) as usize % {n} {{ {arms("t.")} }} = p.s(); Got::Done }}, {setk});')
        els=', '.join(f't.{i}' for i in range(n))
        out.append(f'    d.read("as_ref::<tuple>()", 0, |v, _| {{ let t: &{tt} = v.as_ref(); val(&[{els}]) }}, |m, _| Want::Val(words(m)));')
        args=', '.join(f'p.w[{i}]' for i in range(n)); ta='('+args+(',)' if n==1 else ')')
        if n==1:
            out.append(f'    d.edit("as_mut::<S>() =", 0, |v, p| {{ let t: &mut E = v.as_mut(); *t = p.s(); Got::Done }}, |m, p| {{ m[0] = p.s(); Want::Done }});')
            out.append(f'    d.read("as_ref::<S>()", 0, |v, _| {{ let t: &E = v.as_ref(); val(&[*t]) }}, |m, _| Want::Val(words(m)));')
        out.append(f'    d.edit("= {T}::new", 0, |v, p| {{ *v = {T}::new({args}); Got::Done }}, |m, p| {{ *m = p.vals({n}); Want::Done }});')
        out.append(f'    d.edit("= {T}::from(tuple)", 0, |v, p| {{ *v = {T}::from({ta}); Got::Done }}, |m, p| {{ *m = p.vals({n}); Want::Done }});')
        out.append(f'    d.edit("= {T}::from(&tuple)", 0, |v, p| {{ *v = {T}::from(&{ta}); Got::Done }}, |m, p| {{ *m = p.vals({n}); Want::Done }});')
        out.append(f'    d.edit("= *<&{T}>::from(&tuple)", 0, |v, p| {{ let t = {ta}; let r: &{T}<E> = From::from(&t); *v = *r; Got::Done }}, |m, p| {{ *m = p.vals({n}); Want::Done }});')
        for c in 'xyzw'[:n]:
            names=[x for x in tab.get(T,[]) if x[0][0]==c]
            if not names: continue
            for name,o in names: assert len(name)==int(o[-1]),(T,name,o)
            body=' '.join(f'o.extend_from_slice(v.{name}().as_slice());' for name,o in names)
            idx=''.join(name for name,o in names)
            out.append(f'    d.read("swizzles {c}..", 0, |v, _| {{ let mut o = vec![]; {body} val(&o) }}, |m, _| Want::Val(words(&swizzled(m, "{idx}"))));')
        out.append('}')
SH=[(1,1),(2,2),(3,3),(4,4),(1,2),(1,3),(1,4),(2,3),(2,4),(3,2),(3,4),(4,2),(4,3)]
for r,c in SH:
    T=f'Matrix{r}x{c}'
    out.append(f'pub fn {T.lower()}<E: El>(d: &mut Def<{T}<E>, E>) {{')
    arms=', '.join(f'{k if k<r*c-1 else "_"} => &mut v.c{k//r}r{k%r}' for k in range(r*c))
    out.append(f'    d.edit("named element =", 0, |v, p| {{ *match p.xi(0) as usize % {r*c} {{ {arms} }} = p.s(); Got::Done }}, |m, p| {{ m[p.xi(0) as usize % {r*c}] = p.s(); Want::Done }});')
    els=', '.join(f'v.c{k//r}r{k%r}' for k in range(r*c))
    out.append(f'    d.read("named elements", 0, |v, _| val(&[{els}]), |m, _| Want::Val(words(m)));')
    args=', '.join(f'p.w[{i}]' for i in range(r*c))
    out.append(f'    d.edit("= {T}::new", 0, |v, p| {{ *v = {T}::new({args}); Got::Done }}, |m, p| {{ *m = p.vals({r*c}); Want::Done }});')
    out.append(f'    d.edit("as_mut::<[S; {r*c}]>()[i] =", 1, |v, p| {{ let t: &mut [E; {r*c}] = v.as_mut(); t[p.ix(0, {r*c})] = p.s(); Got::Done }}, |m, p| {{ let i = p.ix(0, {r*c}); if i >= {r*c} {{ return Want::Panic; }} m[i] = p.s(); Want::Done }});')
    out.append(f'    d.read("as_ref::<[S; {r*c}]>()", 0, |v, _| {{ let t: &[E; {r*c}] = v.as_ref(); val(t) }}, |m, _| Want::Val(words(m)));')
    out.append(f'    d.edit("= {T}::from([S; {r*c}])", 0, |v, p| {{ *v = {T}::from(p.arr::<{r*c}>()); Got::Done }}, |m, p| {{ *m = p.vals({r*c}); Want::Done }});')
    out.append(f'    d.edit("= *<&{T}>::from(&[S; {r*c}])", 0, |v, p| {{ let t = p.arr::<{r*c}>(); let q: &{T}<E> = From::from(&t); *v = *q; Got::Done }}, |m, p| {{ *m = p.vals({r*c}); Want::Done }});')
    out.append('}')
open(f'{ROOT}/sim/src/views_gen.rs','w').write('\n'.join(out)+'\n')
