#include "sx.hpp"
#include "hifir.hpp"
using namespace hif;
extern "C" void entry() {
  typedef CRS<double,int,int> crs;
  const int n=3,m=3;
  double D[n][m]; bool P[n][m];
  crs A(n,m);
  A.row_start().resize(n+1);
  int nz=0; A.row_start()[0]=0;
  for(int i=0;i<n;++i){for(int j=0;j<m;++j){P[i][j]=sx_choose(2);D[i][j]=P[i][j]?sx_dbl("a",-8,8,0):0;if(P[i][j])++nz;}A.row_start()[i+1]=nz;}
  A.reserve(nz),A.col_ind().resize(nz),A.vals().resize(nz); nz=0;
  for(int i=0;i<n;++i)for(int j=0;j<m;++j)if(P[i][j]){A.col_ind()[nz]=j;A.vals()[nz++]=D[i][j];}
  Array<double> x(m),y(n);
  for(int j=0;j<m;++j)x[j]=sx_dbl("x",-8,8,0);
  A.multiply_nt(x,y);
  for(int i=0;i<n;++i){double s=0;for(int j=0;j<m;++j)s+=D[i][j]*x[j];sx_eq(s,y[i],"nt");}
  sx_cover("end");
}
