// Stand-ins for the parts of TensorToolkit that the code under contract refers to.
#ifndef CPPVC_STUB_QLTEN_H
#define CPPVC_STUB_QLTEN_H
#include <complex>
#include <cstddef>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include "mpi.h"
#define HANDLE_MPI_ERROR(x) do { (void) (x); } while (0)
namespace qlten {
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
template<class T> struct RealTypeTrait { using type = T; };
template<class T> struct RealTypeTrait<std::complex<T>> { using type = T; };
struct Showable { virtual void Show(const size_t) const = 0; virtual ~Showable() = default; };
struct Streamable { virtual void StreamRead(std::istream &) = 0; virtual void StreamWrite(std::ostream &) const = 0; virtual ~Streamable() = default; };
inline std::istream &operator>>(std::istream &is, Streamable &x) { x.StreamRead(is); return is; }
inline std::ostream &operator<<(std::ostream &os, const Streamable &x) { x.StreamWrite(os); return os; }
struct IndentPrinter { size_t n; IndentPrinter(size_t k) : n(k) {} };
inline std::ostream &operator<<(std::ostream &os, const IndentPrinter &) { return os; }
namespace hp_numeric {
const int kMPIMasterRank = 0;
template<class T> inline int MPI_Bcast(T *p, int n, int root, MPI_Comm comm) { return ::MPI_Bcast(p, n, MPI_DOUBLE, root, comm); }
template<class T> inline MPI_Datatype GetMPIDataType();
template<> inline MPI_Datatype GetMPIDataType<double>() { return MPI_DOUBLE; }
template<> inline MPI_Datatype GetMPIDataType<std::complex<double>>() { return MPI_CXX_DOUBLE_COMPLEX; }
}
}
#endif
