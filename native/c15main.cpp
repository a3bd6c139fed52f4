// the real main loop (src/PiCoPiC.cpp) with recording stand-ins for the simulation block, the configuration and the output controller
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <cstdio>
#include <string>
#include <vector>
#define main picopic_main
#include "src/PiCoPiC.cpp"
#undef main
#include "common.hpp"
static std::vector<char> SEEN; static std::vector<double> CUR; static TimeSim *T0; static Geometry *G0; static double ST, EN, SP; static bool GEO;
Cfg::Cfg(const std::string) { geometry = G0; time = T0 = new TimeSim(); time->start = ST; time->current = ST; time->end = EN; time->step = SP; output_data = (save_data *)calloc(1, sizeof(save_data)); output_data->data_root = strdup("out"); }
Cfg::~Cfg(void) {}
std::string Cfg::cfg2str() { return ""; }
picojson::value Cfg::cfg2value() { return picojson::value(); }
SMB::SMB(Cfg *, Geometry *g, TimeSim *t, int r, int s) { GEO = g == G0 && t == T0 && r == 0 && s == 1; }
void SMB::distribute() { SEEN.push_back('D'); }
void SMB::inject_beam() { SEEN.push_back('I'); CUR.push_back(T0->current); }
void SMB::solve_maxvell() { SEEN.push_back('M'); CUR.push_back(T0->current); }
void SMB::advance_particles() { SEEN.push_back('A'); CUR.push_back(T0->current); }
void SMB::solve_current() { SEEN.push_back('C'); CUR.push_back(T0->current); }
OutController::OutController(HighFive::File *, Geometry *, TimeSim *, std::vector<probe> &, SMB *, picojson::value, bool) {}
void OutController::operator()() { SEEN.push_back('O'); CUR.push_back(T0->current); }
namespace msg { void print_final() {} }
namespace algo { namespace common { bool make_directory(const std::string &) { return true; } char *get_cmd_option(char **, char **, const std::string &) { return (char *)"x"; } bool cmd_option_exists(char **, char **, const std::string &) { return false; } } }
void one_case(long n)
{
  SP = U(1e-13, 1e-11); ST = I(0, 1) ? 0 : SP * I(1, 50); int want = I(0, 40); EN = ST + SP * (want - .5); SEEN.clear(); CUR.clear(); GEO = false;
  if (want && I(0, 1)) EN = ST + SP * (want - 1) + SP * U(.1, .9);
  char a0[] = "picopic"; char *av[] = {a0, 0};
  int rc = picopic_main(1, av);
  CHECK(rc == 0, "case %ld: exit code %d", n, rc);
  CHECK(GEO, "case %ld: the block does not get the configured geometry and clock", n);
  std::string s(SEEN.begin(), SEEN.end());
  CHECK(!s.empty() && s[0] == 'D' && s.find('D', 1) == std::string::npos, "case %ld: particles are not distributed once, before the first step: %s", n, s.substr(0, 30).c_str());
  std::string b = s.substr(1);
  CHECK((long)b.size() == 5L * want, "case %ld: %ld stages for %d time steps (I inject M fields A particles C currents O output): %s", n, (long)b.size(), want, b.substr(0, 30).c_str());
  for (size_t k = 0; k + 5 <= b.size(); k += 5)
  {
    std::string q = b.substr(k, 5); auto at = [&](char c) { return q.find(c); };
    bool one = true; for (char c : {'I', 'M', 'A', 'C', 'O'}) one = one && at(c) != std::string::npos;
    CHECK(one, "case %ld step %ld: stages %s", n, (long)k / 5, q.c_str());
    CHECK(one && at('I') < at('A') && at('M') < at('A') && at('A') < at('C') && at('C') < at('O'), "case %ld step %ld: order of stages %s", n, (long)k / 5, q.c_str());
    for (int z = 0; z < 5; ++z) CHECK(close(CUR[k + z], ST + SP * (k / 5), SP), "case %ld step %ld: stage %c runs at time %g steps", n, (long)k / 5, q[z], (CUR[k + z] - ST) / SP);
  }
}
