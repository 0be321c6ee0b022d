#ifndef CPPVC_STUB_TIMER_H
#define CPPVC_STUB_TIMER_H
#include <string>
#include "qlten/qlten.h"
namespace qlten {
struct Timer { Timer(const std::string &) {} double Elapsed() const { return 0.0; } void PrintElapsed() const {} };
}
#endif
