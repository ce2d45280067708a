import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import sv
os.makedirs(sv.VERIF+'/evidence',exist_ok=True); os.makedirs(sv.VERIF+'/replays',exist_ok=True)
t=sv.Tree.__new__(sv.Tree); t.w=sv.scratch(); print(t.rt())
