
CF="include/qlpeps/vmc_basic/configuration.h"; JF="include/qlpeps/vmc_basic/jastrow_factor.h"
MPI = '#pragma once\n#include <vector>\ntypedef int MPI_Comm; struct MPI_Status{}; typedef int MPI_Datatype;\n#define MPI_UNSIGNED_LONG_LONG 1\ntemplate<class T> int MPI_Send(const T*,int,int,int,int,int){return 0;}\ntemplate<class T> int MPI_Recv(T*,int,int,int,int,int,MPI_Status*){return 0;}\ntemplate<class T,class U> int MPI_Sendrecv(const T*,int,int,int,int,U*,int,int,int,int,int,MPI_Status*){return 0;}\ntemplate<class T> int MPI_Bcast(T*,int,int,int,int){return 0;}\ninline int MPI_Comm_rank(int,int*r){*r=0;return 0;}\n'
QL = '#pragma once\n#include <iostream>\n#include "mpi.h"\n#define HANDLE_MPI_ERROR(x) (x)\nnamespace qlten{ struct Showable{ virtual void Show(const size_t) const=0; }; struct Streamable{ virtual void StreamRead(std::istream&)=0; virtual void StreamWrite(std::ostream&) const=0; };\ninline std::istream&operator>>(std::istream&i,Streamable&x){x.StreamRead(i);return i;} inline std::ostream&operator<<(std::ostream&o,const Streamable&x){x.StreamWrite(o);return o;} struct IndentPrinter{ IndentPrinter(size_t){} }; inline std::ostream&operator<<(std::ostream&o,const IndentPrinter&){return o;} }\n'
FILES = {"mpi.h": MPI, "qlten/qlten.h": QL}
H = '#include <cstdio>\n#include <cassert>\n#include <map>\n#include <sstream>\n#include "qlpeps/two_dim_tn/framework/site_idx.h"\n#include "qlpeps/vmc_basic/configuration.h"\n#include "qlpeps/vmc_basic/jastrow_factor.h"\nusing namespace qlpeps;\n'
S = [
 dict(id="b15", property="C12", files=FILES, needs="a sparse occupancy map whose numbers add up to less than the number of sites",
  breaks="the map overload refuses only too many occupied sites; with too few, the missing sites silently get state 0",
  edits=[(CF, "    // Calculate sum of occupancy numbers\n    size_t sum_occupancy = 0;\n    for (auto [state, occupancy_num] : config_map_to_occupancy_num) {\n      sum_occupancy += occupancy_num;\n    }\n    \n    // Validate that sum of occupancy numbers equals total sites\n    if (sum_occupancy != total_sites) {", "    // Calculate sum of occupancy numbers\n    size_t sum_occupancy = 0;\n    for (auto [state, occupancy_num] : config_map_to_occupancy_num) {\n      sum_occupancy += occupancy_num;\n    }\n    \n    // Validate that sum of occupancy numbers equals total sites\n    if (sum_occupancy > total_sites) {")],
  demo=H + 'int main(){ std::map<size_t,size_t> m{{1,1},{2,2}}; try { Configuration a(2,2,m); } catch(const std::invalid_argument&) { return 0; } return 1; }\n'),
 dict(id="b16", property="C12", files=FILES, needs="loading, from a file with shape information, a lattice with the transposed shape",
  breaks="the shape check compares only the number of sites, so a transposed lattice is accepted",
  edits=[(CF, "        if (rows != this->rows() || cols != this->cols()) {\n          return false;\n        }\n      }\n    }\n\n    // Now read", "        if (rows * cols != this->rows() * this->cols()) {\n          return false;\n        }\n      }\n    }\n\n    // Now read")],
  demo=H + '#include <filesystem>\n#include <cstdlib>\nint main(){ char b[]="/tmp/b16_XXXXXX"; std::string d=mkdtemp(b); Configuration a(std::vector<std::vector<size_t>>{{1,2,3},{4,5,6}}); a.Dump(d,3); Configuration c(3,2), e(2,3); bool ok=!c.Load(d,3) && e.Load(d,3) && a==e; std::filesystem::remove_all(d); return ok?0:1; }\n'),
 dict(id="b17", property="C13", files=FILES, needs="a pair of sites whose packed position reaches the end of its row (lattices of three or more sites)",
  breaks="the packed index subtracts i(i+1)/2 instead of (i+1)(i+2)/2 plus a shift, which collides for some pairs",
  edits=[(JF, "    return i * N_ + j - ((i + 1) * (i + 2)) / 2;", "    return i * N_ + j - 1 - (i * (i + 3) + i / 2) / 2;")],
  demo=H + 'int main(){ JastrowFactor v(2,4); const JastrowFactor &r=v; double k=1; for(size_t i=0;i<8;i++) for(size_t j=i+1;j<8;j++) v.Set(j,i,k++); k=1; for(size_t i=0;i<8;i++) for(size_t j=i+1;j<8;j++) if(r(i,j)!=k++) return 1; return 0; }\n'),
 dict(id="b18", property="C13", files=FILES, needs="a lattice with more than one row and column, and a site in the first column",
  breaks="the field skips every site of the own row that comes first, not only the site itself",
  edits=[(JF, "if (j == linear_idx_i) continue;", "if (j == linear_idx_i || (row > 0 && j + 1 == linear_idx_i && col + 1 == Lx_)) continue;")],
  demo=H + 'int main(){ JastrowFactor v(2,2); v.Fill([](size_t,size_t){return 1.0;}); Configuration n(std::vector<std::vector<size_t>>{{1,1},{1,1}}); double s=v.JastrowFieldAtSite(n,{1,0}); JastrowFactor w(3,2); w.Fill([](size_t,size_t){return 1.0;}); Configuration m(std::vector<std::vector<size_t>>{{1,1},{1,1},{1,1}}); return s==3 && w.JastrowFieldAtSite(m,{2,0})==5 ? 0:1; }\n'),
]
