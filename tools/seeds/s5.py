
SH="include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
FILES = {"mpi.h": open("/verif/stubs/mpi.h").read(), "qlten/qlten.h": open("/verif/stubs/qlten/qlten.h").read(), "qlten/framework/hp_numeric/mpi_fun.h": '#include "qlten/qlten.h"\n'}
H = '#include <cstdio>\n#include <cassert>\n#include <iostream>\n#include <limits>\n#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"\nusing namespace qlpeps; using std::vector;\ntemplate<class F> void all(int n, F f){ vcmpi::world.size=n; for(int r=n-1;r>=0;r--){ vcmpi::world.rank=r; f(r);} }\n'
S = [
 dict(id="b19", property="C14", files=FILES, needs="a series whose length lies just below a square (e.g. 3 or 7 samples), so that rounding and truncating its root differ",
  breaks="the bin length is rounded to the nearest integer instead of truncated",
  edits=[(SH, "static_cast<size_t>(std::sqrt(num_local_samples))", "static_cast<size_t>(std::lround(std::sqrt(num_local_samples)))")],
  demo=H + 'int main(){ double m=0; all(1,[&](int){ m=MeanAndBinnedErrorSqrtNUniformBin(vector<double>{1,2,6},MPI_COMM_WORLD).first; }); return m==3.0?0:1; }\n'),
 dict(id="b20", property="C14", files=FILES, needs="lists whose length differs from the number of processes",
  breaks="the gathered lists are read with the number of processes as stride",
  edits=[(SH, "data_gather_transposed[j][i] = all_data[i * data_size + j];", "data_gather_transposed[j][i] = all_data[data_size > world_size ? j * world_size + i : i * data_size + j];")],
  demo=H + 'int main(){ vector<double> avg; all(2,[&](int r){ vector<double> a,e; GatherStatisticListOfData(vector<double>{1.0+r,10.0+r,100.0+r},MPI_COMM_WORLD,a,e); if(r==0) avg=a; }); return avg[0]==1.5&&avg[1]==10.5&&avg[2]==100.5?0:1; }\n'),
 dict(id="b21", property="C14", files=FILES, needs="complex samples with imaginary parts that vary",
  breaks="the variance of complex samples is taken from the real parts' deviation only",
  edits=[(SH, "                                        [](const T &num) {\n                                          return static_cast<RealT>(std::norm(num));", "                                        [](const T &num) {\n                                          return static_cast<RealT>(std::real(num) * std::real(num));")],
  demo=H + 'typedef std::complex<double> C;\nint main(){ double v=Variance(vector<C>{C(1,2),C(3,-2)}); return std::abs(v-5.0)<1e-12?0:1; }\n'),
]
