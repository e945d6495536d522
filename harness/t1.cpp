#include "sx.hpp"
#include "hifir.hpp"
#include "xdense.hpp"
using namespace hif;
#ifndef N
#define N 3
#endif
extern "C" void entry() {
  typedef HIF<double,int,int,XDenseT> H; typedef H::crs_type crs;
  const int n=N; bool PL[N][N]={},PU[N][N]={}; double L[N][N],U[N][N],d[N],A[N][N];
  for(int i=0;i<n;++i)for(int j=0;j<n;++j){L[i][j]=i==j;U[i][j]=i==j;}
  for(int i=0;i<n;++i){d[i]=sx_choose(2)?2:-1;for(int j=0;j<i;++j){PL[i][j]=sx_choose(2); L[i][j]=PL[i][j]?sx_dbl("l",-2,2,0):0.0;PU[j][i]=sx_choose(2);U[j][i]=PU[j][i]?sx_dbl("u",-2,2,0):0.0;}}
  crs M(n,n); M.row_start()[0]=0;
  for(int i=0;i<n;++i){for(int j=0;j<n;++j){A[i][j]=0;bool z=true;for(int k=0;k<n;++k){if((i==k||PL[i][k])&&(j==k||PU[k][j])){z=false;A[i][j]+=L[i][k]*d[k]*U[k][j];}}
     if(!z){M.col_ind().push_back(j);M.vals().push_back(A[i][j]);}}M.row_start()[i+1]=M.col_ind().size();}
  Params p=DEFAULT_PARAMS; p.verbose=0;p.no_pre=1;p.tau_L=p.tau_U=0;p.alpha_L=p.alpha_U=100;p.kappa=p.kappa_d=1e6;p.pivot=0;p.dense_thres=1;
  H h; h.factorize(M,p);
  Array<double> b(n),x(n); double X[N];
  for(int i=0;i<n;++i){X[i]=sx_dbl("x",-4,4,0);}
  for(int i=0;i<n;++i){b[i]=0;for(int j=0;j<n;++j)b[i]+=A[i][j]*X[j];}
  h.solve(b,x);
  for(int i=0;i<n;++i)sx_eq(x[i],X[i],"solve");
  if(h.levels()>1)sx_cover("multi"); else sx_cover("single");
}
