// native driver: replay a tape or run a seeded search over the goals of one contract file
#include <chrono>
#include <csignal>
#include <unistd.h>
static volatile const char *vc_cur = "";
static std::string vc_dumpfile;
static void vc_dump(const char *goal, const char *label) {
  FILE *f = vc_dumpfile.empty() ? stdout : fopen(vc_dumpfile.c_str(), "w");
  if (!f) return;
  fprintf(f, "goal %s\nlabel %s\n", goal, label);
  for (auto &l : vc::ctx().log) fprintf(f, "in %s\n", l.c_str());
  if (f != stdout) fclose(f);
}
static void vc_sig(int s) { vc_dump((const char *) vc_cur, s == SIGSEGV ? "crash: SIGSEGV" : s == SIGABRT ? "crash: abort" : s == SIGALRM ? "no termination within the time limit" : "crash"); _exit(1); }
extern "C" void __asan_on_error() { vc_dump((const char *) vc_cur, "crash: memory error (address sanitizer)"); }
extern "C" const char *__asan_default_options() { return "detect_leaks=1:exitcode=1:allocator_may_return_null=1"; }
static int vc_run(const vc::Goal &g, std::string &label) {
  auto &c = vc::ctx(); c.pos.clear(); c.log.clear(); vc_cur = g.name;
#ifndef VC_VERIFY
  vc::Cell::live() = 0;
#endif
  try { g.fn(); } catch (vc::Discard &) { return 2; } catch (vc::Failed &f) { label = f.label; return 1; }
  catch (std::exception &e) { label = std::string("unexpected exception: ") + e.what(); return 1; }
  catch (...) { label = "unexpected exception"; return 1; }
  return 0;
}
int main(int argc, char **argv) {
  // replay:  prog tape FILE        search:  prog search SEED ITERS SECONDS DUMPFILE [goal...]
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGALRM}) signal(s, vc_sig);
  if (argc >= 3 && std::string(argv[1]) == "tape") {
    std::ifstream f(argv[2]); std::string line, goal;
    auto &c = vc::ctx(); c.use_tape = true; c.rng.seed(1);
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string k, n; is >> k; 
      if (k == "goal") is >> goal;
      else if (k == "in") { is >> n; std::vector<double> d; std::vector<long long> v; std::string w; while (is >> w) { d.push_back(strtod(w.c_str(), nullptr)); v.push_back(w.find_first_of(".eEnN") == std::string::npos ? (w[0] == '-' ? strtoll(w.c_str(), nullptr, 10) : (long long) strtoull(w.c_str(), nullptr, 10)) : (long long) d.back()); } c.tape_d[n].push_back(d); c.tape_i[n].push_back(v); }
    }
    alarm(20);
    for (auto &g : vc::registry()) if (goal == g.name) {
      std::string label; int r = vc_run(g, label);
      if (r == 1) { vc_dump(g.name, label.c_str()); printf("REPLAY-FAILS %s: %s\n", g.name, label.c_str()); return 1; }
      printf(r == 2 ? "REPLAY-DISCARDED %s\n" : "REPLAY-PASSES %s\n", g.name); return 0;
    }
    printf("REPLAY-NOGOAL %s\n", goal.c_str()); return 3;
  }
  unsigned long long seed = strtoull(argv[2], nullptr, 10); long iters = atol(argv[3]); double secs = atof(argv[4]); vc_dumpfile = argv[5];
  long total = 0, kept = 0;
  for (auto &g : vc::registry()) {
    if (argc > 6) { bool in = false; for (int i = 6; i < argc; i++) if (std::string(argv[i]) == g.name) in = true; if (!in) continue; }
    auto t0 = std::chrono::steady_clock::now(); long k = 0, n = 0;
    for (long i = 0; i < iters; i++) {
      vc::ctx().rng.seed(seed * 1000003ull + i * 7919ull + 17); vc::ctx().use_tape = false; alarm(30);
      std::string label; int r = vc_run(g, label); n++;
      if (r == 0) k++;
      if (r == 1) { vc_dump(g.name, label.c_str()); printf("SEARCH-FAILS %s: %s\n", g.name, label.c_str()); return 1; }
      if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    total += n; kept += k; printf("SEARCH %s runs %ld kept %ld\n", g.name, n, k);
  }
  printf("SEARCH-OK runs %ld kept %ld\n", total, kept);
  return 0;
}
