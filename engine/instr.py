#!/usr/bin/env python3
"""Rewrite LLVM IR text so every double operation calls the symbolic runtime."""
import re,sys
PRED={'oeq':1,'ogt':2,'oge':3,'olt':4,'ole':5,'one':6,'ord':7,'uno':8,'ueq':9,'ugt':10,'uge':11,'ult':12,'ule':13,'une':14}
BIN={'fadd':'fadd','fsub':'fsub','fmul':'fmul','fdiv':'fdiv','frem':'frem'}
REN={'llvm.fabs.f64':'fabs','fabs':'fabs','llvm.fmuladd.f64':'fmuladd','llvm.fma.f64':'fmuladd','llvm.floor.f64':'floor','floor':'floor',
 'llvm.ceil.f64':'ceil','ceil':'ceil','llvm.sqrt.f64':'sqrt','sqrt':'sqrt','llvm.maxnum.f64':'maxnum','llvm.minnum.f64':'minnum','fmax':'maxnum','fmin':'minnum',
 'llvm.pow.f64':'pow','pow':'pow','llvm.exp.f64':'exp','exp':'exp','llvm.log.f64':'log','log':'log','atof':'atof','strtod':'strtod',
 'printf':'printf','fprintf':'fprintf','vfprintf':'vfprintf','sprintf':'sprintf','snprintf':'snprintf','fscanf':'fscanf','__isoc99_fscanf':'fscanf','__isoc23_fscanf':'fscanf',
 'sscanf':'sscanf','__isoc99_sscanf':'sscanf','__isoc23_sscanf':'sscanf','exit':'exit','abort':'abort','__assert_fail':'assert_fail','fopen':'fopen','fopen64':'fopen','erand48':'erand48','remove':'remove','unlink':'remove','malloc':'malloc','calloc':'calloc','realloc':'realloc','free':'free','strdup':'strdup'}
DECL={'fabs':'double (double)'}
PROTO='''
declare double @__sym_fadd(double,double)
declare double @__sym_fsub(double,double)
declare double @__sym_fmul(double,double)
declare double @__sym_fdiv(double,double)
declare double @__sym_frem(double,double)
declare double @__sym_fneg(double)
declare i32 @__sym_fcmp(i32,double,double)
declare i64 @__sym_fptosi(double)
'''
SZ={'i8':1,'i16':2,'i32':4,'i64':8,'double':8,'float':4,'ptr':8}
def tsize(ty):
    ty=ty.strip()
    m=re.match(r'^\[(\d+) x (.*)\]$',ty)
    if m:
        e=tsize(m[2]); return None if e is None else int(m[1])*e
    return SZ.get(ty)
def guard(txt):
    """Put guard zones around the array variables on the stack; checked at every return."""
    out=[]; arr=[]; used=False
    for ln in txt.split('\n'):
        if ln.startswith('define '): arr=[]; first=True
        m=re.match(r'^  (%[\w.$-]+) = alloca (\[.*\])(?:, align (\d+))?(, !.*)?$',ln)
        if m:
            n=tsize(m[2])
            if n and n<(1<<20):
                v=m[1]; r='%__sg_'+v[1:]; used=True
                out.append(f'  {r} = alloca [{n+64} x i8], align 32'); out.append(f'  {v} = getelementptr i8, ptr {r}, i64 32')
                out.append(f'  call void @__sv_sg(ptr {r}, i64 {n})'); arr.append((v,r,n)); continue
        if arr:
            m=re.match(r'^  call void @llvm\.lifetime\.\w+\.p0\(.*ptr (?:nonnull )?(%[\w.$-]+)\)',ln)
            if m and any(m[1]==a[0] for a in arr): continue
            if re.match(r'^  ret ',ln):
                for v,r,n in arr: out.append(f'  call void @__sv_sc(ptr {r}, i64 {n})')
        out.append(ln)
    t='\n'.join(out)
    if used: t+='\ndeclare void @__sv_sg(ptr,i64)\ndeclare void @__sv_sc(ptr,i64)\n'; t=re.sub(r'\bmusttail call|\btail call','call',t)
    return t
def rewrite(txt):
    txt=guard(txt)
    out=[]; renamed=set(); nt=[0]
    defined=set(re.findall(r'^define [^@]*@"?([\w.$]+)"?\(',txt,re.M))
    funcs=sorted(defined)
    for ln in txt.split('\n'):
        m=re.match(r'^(\s*)(%\S+) = (fadd|fsub|fmul|fdiv|frem) (?:\w+ )*?double ([^,]+), ([^,]+?)(, !.*)?$',ln)
        if m:
            out.append(f'{m[1]}{m[2]} = call double @__sym_{m[3]}(double {m[4]}, double {m[5]})'); continue
        m=re.match(r'^(\s*)(%\S+) = fneg (?:\w+ )*?double ([^,]+?)(, !.*)?$',ln)
        if m:
            out.append(f'{m[1]}{m[2]} = call double @__sym_fneg(double {m[3]})'); continue
        m=re.match(r'^(\s*)(%\S+) = fcmp (?:(?:fast|nnan|ninf|nsz|reassoc|arcp|contract|afn) )*(\w+) double ([^,]+), ([^,]+?)(, !.*)?$',ln)
        if m:
            t=f'%__s{nt[0]}'; nt[0]+=1
            out.append(f'{m[1]}{t} = call i32 @__sym_fcmp(i32 {PRED[m[3]]}, double {m[4]}, double {m[5]})')
            out.append(f'{m[1]}{m[2]} = icmp ne i32 {t}, 0'); continue
        m=re.match(r'^(\s*)(%\S+) = (fptosi|fptoui) double ([^,]+?) to (i\d+)(, !.*)?$',ln)
        if m:
            if m[5]=='i64': out.append(f'{m[1]}{m[2]} = call i64 @__sym_fptosi(double {m[4]})')
            else:
                t=f'%__s{nt[0]}'; nt[0]+=1
                out.append(f'{m[1]}{t} = call i64 @__sym_fptosi(double {m[4]})')
                out.append(f'{m[1]}{m[2]} = trunc i64 {t} to {m[5]}')
            continue
        if re.search(r'= (fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fptosi|fptoui|fptrunc|fpext) ',ln):
            raise SystemExit('instr: unhandled '+ln)
        if '@' in ln:
            def sub(mm):
                n=mm.group(1)
                if n in REN and n not in defined:
                    return '@__sym_'+REN[n]
                return mm.group(0)
            l2=re.sub(r'@([\w.$]+)',sub,ln)
            if l2!=ln:
                if l2.startswith('declare'):
                    l2=re.sub(r'#\d+\s*$','',l2); 
                    nm=re.search(r'@(__sym_\w+)',l2)[1]
                    if nm in renamed or nm in ('__sym_fneg',): continue
                    renamed.add(nm)
                else:
                    l2=re.sub(r'(\)) #\d+(, !.*)?$',r'\1',l2)
            ln=l2
        out.append(ln)
    return '\n'.join(out)+PROTO,funcs
if __name__=='__main__':
    t,f=rewrite(open(sys.argv[1]).read()); open(sys.argv[2],'w').write(t)
