/* C06: sparse matrices against a dense reference, for every history of N writes. */
#include "common.h"
#include "sparse-matrix.h"
void sym_harness(void){
  int R=sym_cfg("R",2), C=sym_cfg("C",3), N=sym_cfg("N",3); double ref[4][8]; memset(ref,0,sizeof ref);
  I_Matrix im=newIMatrix(R);
  for(int k=0;k<N;k++){
    int r=sym_choice(nm3("row",k,0,0),R), c=sym_choice(nm3("col",k,0,0),C), op=sym_choice(nm3("op",k,0,0),3);
    double v=op==1?0.0:sym_real(nm3("v",k,0,0),-5,5);
    if(op==2){ accumulateEntryInIMatrix(im,r,c,v); ref[r][c]+=v; sym_cover("acc"); }
    else { addEntryToIMatrix(im,r,c,v); ref[r][c]=v; sym_cover(op?"zero":"set"); }
  }
  Matrix m=transformIMatrix(im);
  for(int r=0;r<R;r++){
    double s=0; int seen[8]={0}; for(int c=0;c<C;c++) s+=ref[r][c];
    for(int c=0;c<C;c++) sym_check_eq(getEntryMatrix(m,r,c),ref[r][c],1e-9,"entry is not the last value stored");
    sym_check_eq(sumIMatrixRowValues(im,r),s,1e-9,"row sum (while building)"); sym_check_eq(sumRowValues(m,r),s,1e-9,"row sum");
    for(int j=m->row_start[r];j<m->row_start[r]+m->row_length[r];j++){ int c=m->col[j];
      sym_check(c>=0&&c<C&&j<m->num_non_zero,"iteration leaves the row"); if(c<0||c>=C) continue;
      sym_check(!seen[c],"cell visited twice"); seen[c]=1; sym_check_eq(m->mat_val[j],ref[r][c],1e-9,"iteration yields a wrong value"); }
    for(int c=0;c<C;c++) if(!sym_same(ref[r][c],0.0)&&!seen[c]) sym_check_eq(ref[r][c],0.0,1e-9,"non-zero cell not visited");
    char nmb[4]="e0"; nmb[1]='0'+r; sym_observe(nmb,s);
  }
  /* converting does not consume the matrix being built */
  addEntryToIMatrix(im,0,C-1,2.5); ref[0][C-1]=2.5; Matrix m2=transformIMatrix(im);
  for(int r=0;r<R;r++) for(int c=0;c<C;c++) sym_check_eq(getEntryMatrix(m2,r,c),ref[r][c],1e-9,"entry after a second conversion");
  destroyMatrix(m); for(int r=0;r<R;r++) for(int c=0;c<C;c++) sym_check_eq(getEntryMatrix(m2,r,c),ref[r][c],1e-9,"entry after freeing an earlier conversion");
  destroyMatrix(m2); destroyIMatrix(im);
}
