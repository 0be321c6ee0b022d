CG="include/qlpeps/utility/conjugate_gradient_solver.h"
FILES = {"mpi.h": open("/verif/stubs/mpi.h").read(), "qlten/qlten.h": open("/verif/stubs/qlten/qlten.h").read(), "qlten/framework/hp_numeric/mpi_fun.h": '#include "qlten/qlten.h"\n', "qlten/utility/timer.h": open("/verif/stubs/qlten/utility/timer.h").read()}
H = '''#include <cstdio>
#include <cassert>
#include <cmath>
#include "qlpeps/utility/conjugate_gradient_solver.h"
using namespace qlpeps;
namespace n { struct V { double e[3]; double NormSquare() const { return e[0]*e[0]+e[1]*e[1]+e[2]*e[2]; }
 V operator+(const V&o) const { return V{e[0]+o.e[0],e[1]+o.e[1],e[2]+o.e[2]}; } V operator-(const V&o) const { return V{e[0]-o.e[0],e[1]-o.e[1],e[2]-o.e[2]}; }
 V&operator+=(const V&o) { *this=*this+o; return *this; } double operator*(const V&o) const { return e[0]*o.e[0]+e[1]*o.e[1]+e[2]*o.e[2]; } };
 inline V operator*(double s,const V&v) { return V{s*v.e[0],s*v.e[1],s*v.e[2]}; }
 struct M { double m[3][3]; mutable int calls=0; int bad=0; V operator*(const V&v) const { V r; for(int i=0;i<3;i++) r.e[i]=m[i][0]*v.e[0]+m[i][1]*v.e[1]+m[i][2]*v.e[2]; if(bad&&++calls>bad) r.e[0]=INFINITY; return r; } };
 inline V last; inline M parts[3]; inline int src=0;
 inline void MPI_Bcast(V&v,const MPI_Comm&c) { ::MPI_Bcast(&v,1,MPI_DOUBLE,0,c); last=v; src=0; }
 inline void MPI_Send(const V&,int,const MPI_Comm&,int) {}
 inline MPI_Status MPI_Recv(V&v,int,const MPI_Comm&,int) { v=parts[++src]*last; return MPI_Status{}; } }
using n::V; using n::M;
static double res(M a,V b,V x) { a.bad=0; return std::sqrt((b-a*x).NormSquare()); }
'''
S = [
 dict(id="b22", property="C17", files=FILES, needs="an absolute tolerance and a small right-hand side, so that the two tolerances differ in order",
  breaks="the parallel solver adds the two tolerances' squares with the smaller one: it compares with min instead of max when the right-hand side is small",
  edits=[(CG, '''  const double tol_sq = std::max(relative_tolerance * relative_tolerance * rhs_norm_sq,
                                 absolute_tolerance * absolute_tolerance);

  VectorType ax0''', '''  const double tol_sq = std::max(relative_tolerance * relative_tolerance * rhs_norm_sq,
                                 absolute_tolerance * rhs_norm_sq > 1.0 ? absolute_tolerance * absolute_tolerance : absolute_tolerance * absolute_tolerance * rhs_norm_sq);

  VectorType ax0''')],
  demo=H + 'int main(){ M a{{{2,0,0},{0,3,0},{0,0,4}}}; V b{1e-3,1e-3,1e-3}, x0{0,0,0}; ConjugateGradientParams p; p.absolute_tolerance=0.1; auto r=ConjugateGradientSolver(a,b,x0,p,MPI_COMM_WORLD); return r.converged()&&r.iterations==0?0:1; }\n'),
 dict(id="b23", property="C17", files=FILES, needs="an indefinite matrix (or a broken product) met after the residual has already grown",
  breaks="the best iterate is recorded before the residual test, so a later, worse vector is returned with the best residual",
  edits=[(CG, '''    if (rkp1_2norm < best_residual_norm_sq) {
      best_x = x;
      best_residual_norm_sq = rkp1_2norm;
    }

    if (rkp1_2norm <= tol_sq) {
      return {x,''', '''    if (rkp1_2norm < rk_2norm) {
      best_x = x;
      best_residual_norm_sq = std::min(best_residual_norm_sq, rkp1_2norm);
    }

    if (rkp1_2norm <= tol_sq) {
      return {x,''')],
  demo=H + '''int main(){ unsigned s=1; auto rnd=[&]{ s=s*1103515245u+12345u; return (double)((s>>16)%19)-9; };
for(int t=0;t<3000;t++){ M a; for(int i=0;i<3;i++) for(int j=0;j<=i;j++) a.m[i][j]=a.m[j][i]= i==j? std::abs(rnd())*3+1 : rnd(); V b{rnd(),rnd(),rnd()}, x0{rnd(),rnd(),rnd()};
 for(size_t m=0;m<6;m++){ ConjugateGradientParams p; p.max_iter=m; p.relative_tolerance=1e-13; auto r=ConjugateGradientSolver(a,b,x0,p); if(std::abs(res(a,b,r.x)-r.residual_norm)>1e-5*(1+res(a,b,x0))) return 1; } } return 0; }
'''),
 dict(id="b24", property="C17", files=FILES, needs="several processes and a product that is not finite in the middle of the solve",
  breaks="the master leaves without telling the others when the residual is not finite: they wait forever",
  edits=[(CG, '''    if (!std::isfinite(rkp1_2norm)) {
      MasterBroadcastInstruction(finish, comm);
      return''', '''    if (!std::isfinite(rkp1_2norm)) {
      return''')],
  demo=H + '''int main(){ for(auto&p:n::parts) p=M{{{2,0.5,0},{0.5,3,0},{0,0,4}}}; n::parts[0].bad=2; V b{1,2,3}, x0{0,0,0}; ConjugateGradientParams p; p.relative_tolerance=1e-12;
vcmpi::journal=true; vcmpi::world.size=3; vcmpi::world.rank=0; ConjugateGradientSolver(n::parts[0],b,x0,p,MPI_COMM_WORLD);
try { for(int k=1;k<3;k++){ vcmpi::world.rank=k; vcmpi::cursor=0; ConjugateGradientSolver(n::parts[k],b,x0,p,MPI_COMM_WORLD); if(vcmpi::cursor!=vcmpi::sent.size()) return 1; } } catch(vcmpi::Mismatch&) { return 1; } return 0; }
'''),
]
