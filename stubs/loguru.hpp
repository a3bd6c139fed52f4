// Stand-in for the loguru submodule (empty in this checkout).  Only what
// PicoPIC uses is provided: messages are dropped, FATAL does not return
// (loguru aborts the process on FATAL).
#ifndef VERIF_LOGURU_STUB
#define VERIF_LOGURU_STUB
#include <sstream>
#include <string>
#include <cstdlib>
namespace loguru {
  typedef int Verbosity;
  enum NamedVerbosity : Verbosity {
    Verbosity_FATAL = -3, Verbosity_ERROR = -2, Verbosity_WARNING = -1,
    Verbosity_INFO = 0, Verbosity_0 = 0, Verbosity_1 = 1, Verbosity_2 = 2,
    Verbosity_MAX = 9
  };
  enum FileMode { Truncate, Append };
  inline Verbosity g_stderr_verbosity = 0;
  struct SignalOptions { bool unsafe_signal_handler, sigabrt, sigbus, sigfpe, sigill, sigint, sigsegv, sigterm; };
  struct Options { SignalOptions signals; };
  inline bool g_preamble_header, g_preamble_date, g_preamble_time;
  inline void init(int &, char **) {}
  inline void init(int &, char **, const Options &) {}
  inline bool add_file(const char *, FileMode, Verbosity) { return true; }
}
#ifdef VERIF_SYMBOLIC   // text handed to the verifier
extern "C" void verif_fatal() __attribute__((noreturn));
template<int V> struct VerifLog {
  template<class T> inline VerifLog &operator<<(const T &) { return *this; }
  inline VerifLog &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  inline VerifLog() { if (V == -3) verif_fatal(); }
};
#define LOG_S(v) VerifLog<loguru::Verbosity_##v>()
#else                   // native replay drivers
struct VerifFatal { std::string what; };
struct VerifLogN {
  std::ostringstream o; int v;
  VerifLogN(int v_) : v(v_) {}
  template<class T> VerifLogN &operator<<(const T &t) { if (v == -3) o << t; return *this; }
  VerifLogN &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  ~VerifLogN() noexcept(false) { if (v == -3) throw VerifFatal{o.str()}; }
};
#define LOG_S(v) VerifLogN(loguru::Verbosity_##v)
#endif
#endif
