"""Property -> jobs.  ('sym',harness,{CFG_..},seconds) or ('cbmc',{...})"""
def S(h,t,**c): return ('sym',h,{('CFG_'+k if not k.startswith('SYM_') else k):v for k,v in c.items()},t)
def B(h,src,unwind,defs=(),to=120,**k): return ('cbmc',dict(h='cbmc/'+h,src=list(src),unwind=unwind,defs=list(defs),to=to,**k))
A_SYM=['doubles are exact reals in the symbolic runs (every counterexample is replayed in IEEE arithmetic before it is reported)',
       'general position: branches whose two operands differ by less than 1e-6 are not explored unless they are syntactically equal; ties are introduced structurally (copies, convex combinations, zeros) by enumerated choices']
PROPS={
'C01':dict(quick=[S('h_parse',80,MODE=1),S('h_parse',40,MODE=2),S('h_parse',10,MODE=7)],thorough=[S('h_parse',300,MODE=1),S('h_parse',100,MODE=2),S('h_parse',10,MODE=7)],assume=A_SYM),
'C02':dict(quick=[S('h_parse',20,MODE=5,SYM_DELTA='1e-8')],thorough=[S('h_parse',60,MODE=5,SYM_DELTA='1e-8')],assume=A_SYM),
'C03':dict(quick=[S('h_parse',90,MODE=3)],thorough=[S('h_parse',700,MODE=3,ALL=1)],assume=A_SYM),
'C04':dict(quick=[S('h_parse',20,MODE=4)],thorough=[S('h_parse',20,MODE=4)],assume=A_SYM),
'C05':dict(quick=[S('h_parse',120,MODE=6)],thorough=[S('h_parse',200,MODE=6)],assume=A_SYM),
'C08':dict(quick=[S('h_belief',30)],thorough=[S('h_belief',120)],assume=A_SYM),
'C10':dict(quick=[S('h_wmdp',20)],thorough=[S('h_wmdp',20)],assume=A_SYM),
'C11':dict(quick=[S('h_best',30,N=3,S=3),S('h_best',30,N=4,S=2)],thorough=[S('h_best',300,N=4,S=3,K=4),S('h_best',200,N=3,S=3,K=6)],assume=A_SYM),
'C12':dict(quick=[S('h_dom',20,S=2,N=3),S('h_dom',30,S=3,N=4)],thorough=[S('h_dom',200,S=2,N=4,K=4),S('h_dom',300,S=3,N=4,K=6)],assume=A_SYM),
'C13':dict(quick=[S('h_prune',40,S=2,N=4,K=2,B=4),S('h_prune',40,S=2,N=4,K=2,B=2,HOW=1),S('h_prune',40,S=2,N=4,K=2,B=4,HOW=2),S('h_prune',40,S=2,N=4,K=2,B=4,HOW=3),S('h_prune',40,S=2,N=4,K=2,B=4,HOW=4),S('h_prune',40,S=3,N=4,K=2,B=1),S('h_prune',20,S=2,N=4,K=2,MID=1,SYM_DELTA='1e-4'),S('h_prune',50,S=3,N=4,K=2,MID=1,SYM_DELTA='1e-4')],
           thorough=[S('h_prune',150,S=2,N=5,K=2,B=4),S('h_prune',250,S=3,N=5,K=2,B=4),S('h_prune',150,S=2,N=4,K=3,B=1),S('h_prune',150,S=3,N=4,K=2,B=4,HOW=3),S('h_prune',100,S=3,N=4,K=2,B=2,HOW=1)],assume=A_SYM),
'C14':dict(quick=[S('h_proj',20,S=2),S('h_proj',20,S=3,O=3)],thorough=[S('h_proj',100,S=3,O=3,A=3)],assume=A_SYM),
'C15':dict(quick=[S('h_cross',20)],thorough=[S('h_cross',60,S=3)],assume=A_SYM),

'C16':dict(quick=[S('h_step',20,M=m,K=2,CHK=1) for m in (1,3)]+[S('h_step',12,M=m,K=1,CHK=1) for m in (0,2,4,5)]+[S('h_step',30,M=m,O=3,K=1,CHK=1) for m in (3,4,5)]+[S('h_step',5,M=m,O=1,K=1,F=2,CHK=1) for m in range(6)]+[S('h_step',12,M=m,PU=pu,K=1,CHK=1,FO=fo,S=3,V=3) for m,pu,fo in ((4,0,8),(5,1,8),(3,0,8),(2,0,8),(1,0,7),(0,2,7))]+[S('h_step',8,M=3,V=1,CHK=1),S('h_step',8,M=2,PU=0,K=1,CHK=1),S('h_step',8,M=3,DOM=1,Q=1,K=1,CHK=1)]+[S('h_step',5,M=m,V=3,SEED=sd,K=1,DOM=d,CHK=1) for m,sd,d in ((0,2,1),(1,3,1),(2,2,1),(1,2,0),(2,3,0),(3,2,0),(4,2,1),(5,2,0))]+[S('h_step',15,M=m,S=3,V=3,SEED=sd,K=1,DOM=d,CHK=1) for m,sd,d in ((2,2,1),(1,2,1),(3,3,0),(5,2,0))]+[S('h_step',12,M=m,A=3,K=1,OPT=1,SEEDS=3,COST=c,CHK=1) for m,c in ((0,1),(1,0),(2,1),(3,0),(4,1),(5,0))]+[S('h_step',8,M=m,V=4,F=8,K=1,SEEDS=4,CHK=1) for m in (1,2,4,5)]+[S('h_step',10,M=4,O=3,V=3,BIG=1000,K=1,SEEDS=3,CHK=1)]+[S('h_step',8,M=m,O=3,V=4,F=1,K=1,SEEDS=4,CHK=1) for m in (1,2)],
  thorough=[S('h_step',40,M=m,S=s,O=o,V=v,K=2,CHK=1) for m in (3,4,5,2,1,0) for (s,o,v) in ((2,3,2),(3,2,3))]+[S('h_step',50,M=m,A=3,K=1,OPT=1,SEEDS=8,COST=m%2,CHK=1) for m in range(6)]+[S('h_step',60,M=m,S=3,V=4,F=8,K=1,SEEDS=8,CHK=1) for m in (1,2,4,5)]+[S('h_step',60,M=m,O=3,V=4,F=7,K=1,SEEDS=8,CHK=1) for m in range(6)],assume=A_SYM),
'C18':dict(quick=[S('h_main',10,BAD=1)]+[S('h_main',12,M=m) for m in (0,1,2,3,7)]+[S('h_main',10,M=6),S('h_main',12,M=5,S=3),S('h_main',10,M=4,O=1)],
  thorough=[S('h_main',10,BAD=1)]+[S('h_main',60,M=m,SEEDS=6) for m in range(8)]+[S('h_main',60,M=m,S=3,O=o) for m in (3,5) for o in (2,3)],assume=A_SYM),
'C19':dict(quick=[S('h_step',20,M=m,K=2,CHK=2) for m in (1,4)]+[S('h_step',12,M=m,K=1,CHK=2) for m in (0,2,3,5)]+[S('h_step',30,M=m,O=3,K=1,CHK=2) for m in (3,4,5)]+[S('h_step',5,M=m,O=1,K=1,F=2,CHK=2) for m in range(6)]+[S('h_step',12,M=m,PU=pu,K=1,CHK=2,FO=fo,S=3,V=3) for m,pu,fo in ((4,0,8),(5,1,8),(3,0,8),(2,0,8),(1,0,7),(0,2,7))]+[S('h_step',5,M=m,V=3,SEED=2,K=1,CHK=2) for m in range(6)]+[S('h_step',10,M=m,S=3,V=3,SEED=3,K=1,CHK=2) for m in (1,3,4)]+[S('h_step',10,M=m,A=3,K=1,OPT=1,SEEDS=3,COST=c,CHK=2) for m,c in ((0,1),(1,0),(2,0),(3,1),(5,1))],
  thorough=[S('h_step',40,M=m,S=s,O=o,V=v,K=2,CHK=2) for m in (3,4,5,2,1,0) for (s,o,v) in ((2,3,2),(3,2,3))]+[S('h_step',50,M=m,A=3,K=1,OPT=1,SEEDS=8,COST=m%2,CHK=2) for m in range(6)]+[S('h_step',60,M=m,S=3,V=4,F=8,K=1,SEEDS=8,CHK=2) for m in (1,2,4,5)],assume=A_SYM),
'C17':dict(quick=[S('h_conv',10,M=3,CRIT=1,VAR=3,A=1),S('h_conv',9,M=3,CRIT=1),S('h_conv',9,M=0,CRIT=2),S('h_conv',9,M=1,CRIT=0,SEEDS=1),S('h_conv',9,M=3,CRIT=0),S('h_conv',9,M=2,VAR=1),S('h_conv',9,M=3,VAR=2,CRIT=2),S('h_conv',9,M=5,CRIT=1,S=3),S('h_conv',9,M=3,CRIT=2,O=3),S('h_conv',9,M=3,CRIT=2,O=1),S('h_conv',9,M=4,CRIT=2),S('h_conv',9,M=2,CRIT=2)],
  thorough=[S('h_conv',60,M=m,CRIT=c,SEEDS=6) for m in range(6) for c in (1,2)]+[S('h_conv',60,M=m,CRIT=2,S=3,SEEDS=4) for m in (3,5)],assume=A_SYM+['runs with the exact stopping criterion are cut after 16 epochs: value functions that differ by less than the LP tolerance can alternate for ever']),
'C20':dict(quick=[S('h_region',30,S=2,N=3),S('h_region',40,S=2,N=4),S('h_region',25,S=3,N=3),S('h_region',15,S=2,N=3,SC=8192),S('h_region',15,S=3,N=3,SC=8192)],thorough=[S('h_region',300,S=3,N=3),S('h_region',300,S=3,N=4),S('h_region',120,S=2,N=5),S('h_region',100,S=2,N=4,K=3,SC=8192)],assume=A_SYM),
'C22':dict(quick=[S('h_stop',20,CRIT=0),S('h_stop',30,CRIT=1),S('h_stop',40,CRIT=2,K=1)],thorough=[S('h_stop',200,CRIT=2,K=2),S('h_stop',150,CRIT=1,S=3,N=3,K=2),S('h_stop',200,CRIT=2,S=2,N=3,K=1),S('h_stop',60,CRIT=0,S=3,N=3,K=2)],assume=A_SYM),
'C23':dict(quick=[S('h_solve',10,M=m,H=2) for m in range(6)]+[S('h_solve',15,M=3,H=1),S('h_solve',15,M=3,H=3),S('h_solve',12,M=3,H=2,CRIT=1),S('h_solve',12,M=2,H=2,CRIT=2)],
  thorough=[S('h_solve',100,M=m,H=3,CRIT=c) for m in (3,4,5,2,1,0) for c in (0,)]+[S('h_solve',60,M=3,H=3,CRIT=c) for c in (1,2)],assume=A_SYM),
'C25':dict(quick=[S('h_zlz',25,M=m) for m in (3,2)]+[S('h_zlz',20,M=m,WIT=0) for m in (3,1)],thorough=[S('h_zlz',150,M=m,D=2) for m in (3,2)]+[S('h_zlz',60,M=m) for m in (4,5,1)],assume=A_SYM),
'C30':dict(quick=[S('h_list',30),S('h_list',60,S=3,N=4,K=2)],thorough=[S('h_list',400,S=3,N=4,K=3),S('h_list',300,S=2,N=5,K=3)],assume=A_SYM),
'C21':dict(quick=[S('h_lp',25,Z=1,SH=1,BD=2),S('h_lp',13,ZB=1,SH=2,BD=2),S('h_lp',13,V=2),S('h_lp',13,V=3,R=2,BD=2),S('h_lp',13,V=2,R=3,BD=2),S('h_lp',13,V=3,R=3,SH=1,BD=2)],
  thorough=[S('h_lp',150,V=2),S('h_lp',100,ZB=1,V=3),S('h_lp',200,V=3,R=2,BD=2),S('h_lp',200,V=2,R=3,BD=2),S('h_lp',200,V=3,R=3,SH=1,BD=2)],assume=A_SYM),
'C24':dict(quick=[S('h_grid',40),S('h_grid',30,DET=1,P=20),S('h_grid',10,DET=2,P=3),S('h_grid',10,IMP=1,LV=4),S('h_grid',20,TY=3,LV=12),S('h_grid',18,S=3,P=6),S('h_grid',20,S=3,DET=1,P=9),S('h_grid',15,S=3,V=3,PU=2,LV=6)],
  thorough=[S('h_grid',60),S('h_grid',60,DET=1,P=20),S('h_grid',30,DET=2,P=3),S('h_grid',30,IMP=1),S('h_grid',250,S=3,P=6),S('h_grid',150,S=3,DET=1,P=9),S('h_grid',250,S=3,V=3,PU=2)],assume=A_SYM),
'C26':dict(quick=[S('h_intr',12,M=m,H=2) for m in range(5)]+[S('h_intr',20,M=3,H=3)],thorough=[S('h_intr',80,M=m,H=2,SEED=2) for m in range(5)]+[S('h_intr',150,M=m,H=3) for m in range(4)],assume=A_SYM+['interrupts and crashes are injected at allocations of the code under test, at 27 positions per run']),
'C27':dict(quick=[S('h_afile',30)],thorough=[S('h_afile',30)],assume=A_SYM),
'C28':dict(quick=[S('h_pg',30,OP=0)]+[S('h_pg',10,OP=1,M=m) for m in range(4)]+[S('h_pg',20,OP=1,H=3)],thorough=[S('h_pg',30,OP=0)]+[S('h_pg',60,OP=1,M=m,S=3) for m in range(4)]+[S('h_pg',60,OP=1,H=3),S('h_pg',120,OP=1,H=3,K=2)],assume=A_SYM),
'C29':dict(quick=[S('h_pgeval',30,FO=f) for f in (0,1,2,3,5)]+[S('h_pgeval',30,FO=0,S=3),S('h_pgeval',30,FO=4,N=1),S('h_pgeval',40,FO=5,G=990,N=1),S('h_pgeval',30,FO=5,G=900),S('h_pgeval',20,FO=5,G=800,S=3),S('h_pgeval',10,FO=3,VIA=1),S('h_pgeval',10,FO=5,VIA=1),S('h_pgeval',30,FO=0,VIA=1)],
  thorough=[S('h_pgeval',120,FO=5,N=3,G=500),S('h_pgeval',120,FO=3,N=3,G=500),S('h_pgeval',120,FO=4),S('h_pgeval',100,FO=1,S=3),S('h_pgeval',100,FO=2,O=3),S('h_pgeval',100,FO=0,K=2),S('h_pgeval',60,FO=5,G=990,N=1),S('h_pgeval',60,FO=0,VIA=1),S('h_pgeval',80,FO=1,S=3,VIA=1)],assume=A_SYM),
'C07':dict(quick=[S('h_tools',40,OP=o) for o in (0,1,3,4,5)]+[S('h_tools',110,OP=2)],thorough=[S('h_tools',200,OP=0,S=3,N=4,K=3),S('h_tools',200,OP=1,S=3,N=4,K=2),S('h_tools',200,OP=2),S('h_tools',150,OP=3,S=3,K=2),S('h_tools',100,OP=4,S=3,K=3),S('h_tools',100,OP=5,S=3,N=4,N2=3)],assume=A_SYM),
'C09':dict(quick=[S('h_tools',30,OP=6),S('h_tools',30,OP=7),S('h_tools',20,OP=7,CHR=1,STEPS=1),S('h_tools',30,OP=6,VIA=1),S('h_tools',30,OP=7,VIA=1)],thorough=[S('h_tools',200,OP=6,STEPS=3),S('h_tools',200,OP=7,STEPS=3),S('h_tools',60,OP=7,CHR=1,STEPS=2),S('h_tools',150,OP=6,S=3)],assume=A_SYM),
'C06':dict(quick=[S('h_sparse',60),S('h_sparse',30,R=1,C=2,N=4)],thorough=[S('h_sparse',60),S('h_sparse',120,R=1,C=3,N=4),S('h_sparse',200,R=1,C=2,N=5),S('h_sparse',150,R=3,C=2,N=3)],assume=A_SYM),
'C31':dict(quick=[S('h_random',30,OP=o) for o in range(5)],thorough=[S('h_random',60,OP=o) for o in range(5)],assume=A_SYM+['the C library generator is replaced by a symbolic uniform variate in [0,1) except in the seed job, which runs the real generator; exp and log are abstracted by their sign and range']),
'C32':dict(quick=[S('h_opt',40,MODE=0),S('h_opt',40,MODE=0,HALF=1),S('h_opt',100,MODE=1),S('h_opt',30,MODE=2),S('h_optt',10,MODE=0),S('h_optt',10,MODE=0,HALF=1),S('h_optt',40,MODE=1),S('h_optt',10,MODE=2),S('h_opt',60,MODE=3),S('h_optt',15,MODE=3)],thorough=[S('h_opt',100,MODE=0),S('h_opt',100,MODE=0,HALF=1),S('h_opt',200,MODE=1),S('h_opt',60,MODE=2),S('h_optt',10,MODE=0),S('h_optt',10,MODE=0,HALF=1),S('h_optt',40,MODE=1),S('h_optt',10,MODE=2),S('h_opt',60,MODE=3),S('h_optt',15,MODE=3)],assume=A_SYM),
'C33':dict(quick=[B('h_aa.c',['src/associative-array.c','src/xalloc.c'],10,to=200),B('h_cfg.c',['src/xalloc.c'],8,['LEN=5','CAP=3','NPAR=1'],350),B('h_cfg.c',['src/xalloc.c'],9,['LEN=6','CAP=3','NPAR=2'],500)],
  thorough=[B('h_aa.c',['src/associative-array.c','src/xalloc.c'],10,['OPS=4'],800),B('h_cfg.c',['src/xalloc.c'],8,['LEN=5','CAP=3','NPAR=1'],800),B('h_cfg.c',['src/xalloc.c'],9,['LEN=6','CAP=3','NPAR=2'],800),B('h_cfg.c',['src/xalloc.c'],10,['LEN=7','CAP=3','NPAR=2'],800)],assume=[]),
'C35':dict(quick=[S('h_dvl',40,OPS=2),S('h_dvl',30,MODE=1),B('h_il.c',['src/index-list.c','src/xalloc.c'],26,to=100),B('h_il.c',['src/index-list.c','src/xalloc.c'],347,['N=345','LO=345'],200)],thorough=[S('h_dvl',600,OPS=3),S('h_dvl',30,MODE=1),S('h_dvl',60,MODE=1,S=4),B('h_il.c',['src/index-list.c','src/xalloc.c'],84,['N=81'],200),B('h_il.c',['src/index-list.c','src/xalloc.c'],1302,['N=1300','LO=1300'],600)],assume=A_SYM),
'C34':dict(quick=[S('h_blist',20)],thorough=[S('h_blist',120,OPS=4)],assume=A_SYM),
'C38':dict(quick=[S('h_neigh',20),S('h_neigh',20,O=3,S=3)],thorough=[S('h_neigh',20),S('h_neigh',200,O=3,S=3,N=3)],assume=A_SYM),
}
NA={}
