#include "common.hpp"
#include <fstream>
#include <sstream>
#include "cfg.hpp"
// a configuration file and the simulation it describes
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
struct Sp { std::string name; int charge, mass; double density, temp; };
struct Bm { std::string name; int charge, mass, amount; double density, start, vel, gap, len, rad; std::string rp, lp; };
struct Pr { std::string comp, specie, shape; long r0, r1, z0, z1; int sch; bool has; };
static std::string quote(const std::string &s) { return "\"" + s + "\""; }
static Cfg *make(const std::string &text, std::string &fatal)
{
  char f[] = "/tmp/verif_cfg_XXXXXX"; int fd = mkstemp(f); close(fd);
  { std::ofstream o(f); o << text; }
  Cfg *c = nullptr;
  try { c = new Cfg(f); } catch (VerifFatal &e) { fatal = e.what; }
  unlink(f);
  return c;
}
void one_case(long n)
{
  long nr = I(1, 40), nz = I(1, 60), dom[2] = {I(0, 1) ? 1 : 2 * I(1, 3), I(0, 1) ? 1 : 2 * I(1, 3)};
  double R = U(.001, .1), Z = U(.001, .3), pml[3] = {I(0, 2) ? U(0, .4) : 0, I(0, 2) ? U(0, .4) : 0, I(0, 2) ? U(0, .4) : 0}, sg[2] = {U(0, 1), U(1, 2)}, t[3] = {I(0, 1) ? 0 : U(0, 1e-9), U(1e-9, 1e-8), U(1e-14, 1e-12)};
  double macro = I(1, 400000), ratio = I(1, 5);
  std::vector<Sp> S = {{"electrons", -1, 1, U(1, 9) * 1e16, I(0, 3) ? U(.1, 9) : 0}, {"ions", 1, (int)I(1, 3000), U(1, 9) * 1e16, U(.1, 9)}};
  if (I(0, 1)) S.push_back({"argon", (int)I(-3, 3), (int)I(1, 90000), U(1, 9) * 1e15, U(0, 2)});
  if (I(0, 1)) std::swap(S[0], S.back());
  std::vector<Bm> B; for (int b = 0, k = I(0, 2); b < k; ++b)
    B.push_back({b ? "second" : "electrons", I(0, 1) ? -1 : 2, (int)I(1, 2000), (int)I(1, 20), U(1, 9) * 1e15, U(0, 1e-8), U(1e7, 2e8), U(.001, .1), U(.001, .1), U(.0005, .02), "flat", "gauss"});
  std::vector<Pr> P; const char *cm[] = {"E/r", "H/phi", "J/z", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z", "density", "v"}, *sh[] = {"rec", "col", "row", "dot"};
  for (int q = 0, k = I(0, 6); q < k; ++q) {
    Pr p; p.comp = cm[I(0, 9)]; p.has = I(0, 1); p.specie = p.has ? S[I(0, S.size() - 1)].name : "unknown"; p.shape = sh[I(0, 3)]; p.sch = I(1, 100);
    p.r1 = I(0, nr); p.z1 = I(0, nz); p.r0 = I(0, p.r1); p.z0 = I(0, p.z1);
    P.push_back(p);
  }
  // one thing may be wrong with it
  int wrong = I(0, 7); std::string why;
#ifdef ENABLE_SINGLETHREAD
  if (wrong == 0) return;
#endif
  if (wrong == 0) { dom[I(0, 1)] = 2 * I(1, 4) + 1; why = "odd domains"; }
  if (wrong == 1) { S.push_back(S[0]); why = "same species name"; }
  if (wrong == 2 && B.size() == 2) { B[1].name = B[0].name; why = "same beam name"; }
  if (wrong == 3 && P.size()) {
    Pr &p = P[I(0, P.size() - 1)]; int w = I(0, 3);
    if (p.shape == "rec" && w == 0 && p.r0 + 1 <= nr) { p.r1 = p.r0; ++p.r0; why = "window upside down"; }
    else if (p.shape == "rec" && w == 1 && p.z0 + 1 <= nz) { p.z1 = p.z0; ++p.z0; why = "window back to front"; }
    else if (p.shape != "col" && w == 2) { p.r1 = nr + I(1, 5); why = "radius outside"; }
    else if (p.shape != "row" && w == 3) { p.z1 = nz + I(1, 5); why = "longitude outside"; }
    else { p.shape = "sphere"; why = "unknown shape"; }
  }
  if (wrong == 4) { for (auto &s : S) if (s.name == "electrons") s.density = 0; why = "no electrons"; for (auto &s : S) if (s.mass == 1 && s.density) why = ""; if (why.empty()) return; }
  std::ostringstream o;
  o << "{\"macro_amount\":" << num(macro) << ",\"beam_plasma_macro_size_ratio\":" << num(ratio) << ",\"log_file\":\"x.log\",\"geometry\":{\"size\":{\"radius\":" << num(R) << ",\"longitude\":" << num(Z)
    << "},\"grid\":{\"radius\":" << nr << ",\"longitude\":" << nz << "},\"domains_amount\":{\"radius\":" << dom[0] << ",\"longitude\":" << dom[1] << "},\"pml\":{\"left_wall\":" << num(pml[0]) << ",\"right_wall\":" << num(pml[1])
    << ",\"outer_wall\":" << num(pml[2]) << ",\"sigma_1\":" << num(sg[0]) << ",\"sigma_2\":" << num(sg[1]) << "}},\"time\":{\"start\":" << num(t[0]) << ",\"end\":" << num(t[1]) << ",\"step\":" << num(t[2]) << "},\"particles\":[";
  for (size_t k = 0; k < S.size(); ++k) o << (k ? "," : "") << "{\"name\":" << quote(S[k].name) << ",\"charge\":" << S[k].charge << ",\"mass\":" << S[k].mass << ",\"density\":" << num(S[k].density) << ",\"temperature\":" << num(S[k].temp) << "}";
  o << "],\"beams\":[";
  for (size_t k = 0; k < B.size(); ++k) o << (k ? "," : "") << "{\"name\":" << quote(B[k].name) << ",\"charge\":" << B[k].charge << ",\"mass\":" << B[k].mass << ",\"start_time\":" << num(B[k].start) << ",\"velocity\":" << num(B[k].vel)
      << ",\"bunch\":{\"amount\":" << B[k].amount << ",\"distance\":" << num(B[k].gap) << ",\"length\":" << num(B[k].len) << ",\"radius\":" << num(B[k].rad) << ",\"density\":" << num(B[k].density)
      << ",\"profile\":{\"radial\":" << quote(B[k].rp) << ",\"longitudinal\":" << quote(B[k].lp) << "}}}";
  bool zip = I(0, 1); int level = I(0, 9);
  o << "],\"external_fields\":{\"electric\":{\"formfactor\":\"none\",\"params\":[1.5,2.5,3]},\"magnetic\":{\"formfactor\":\"const_z\",\"params\":[7]}}";
  o << ",\"data\":{\"data_root\":\"some/where\",\"compression\":{\"use\":" << (zip ? "true" : "false") << ",\"level\":" << level << "},\"probes\":[";
  for (size_t k = 0; k < P.size(); ++k) {
    Pr &p = P[k];
    o << (k ? "," : "") << "{\"component\":" << quote(p.comp) << ",\"schedule\":" << p.sch << ",\"shape\":" << quote(p.shape); if (p.has) o << ",\"specie\":" << quote(p.specie);
    if (p.shape == "rec") o << ",\"start\":{\"r\":" << p.r0 << ",\"z\":" << p.z0 << "},\"end\":{\"r\":" << p.r1 << ",\"z\":" << p.z1 << "}";
    else o << ",\"r\":" << p.r1 << ",\"z\":" << p.z1;
    o << "}";
  }
  o << "]}}";
  std::string fatal; Cfg *c = make(o.str(), fatal);
  if (!why.empty()) { CHECK(!c, "case %ld: accepted a configuration with %s", n, why.c_str()); return; }
  CHECK(c, "case %ld: refused a good configuration: %s", n, fatal.c_str());
  if (!c) return;
  Geometry *g = c->geometry;
  CHECK(g->size[0] == R && g->size[1] == Z && g->cell_amount[0] == (size_t)nr && g->cell_amount[1] == (size_t)nz && g->cell_dims[0] == 0 && g->cell_dims[1] == 0, "case %ld: space %g x %g of %zu x %zu cells", n, g->size[0], g->size[1], g->cell_amount[0], g->cell_amount[1]);
  CHECK(close(g->cell_size[0], R / nr, R, 1e-12) && close(g->cell_size[1], Z / nz, Z, 1e-12), "case %ld: cell %g x %g", n, g->cell_size[0], g->cell_size[1]);
  for (int w = 0; w < 4; ++w) CHECK(g->walls[w], "case %ld: no wall %d", n, w);
#ifdef ENABLE_SINGLETHREAD
  dom[0] = dom[1] = 1;
#endif
  CHECK((long)g->domains_amount[0] == dom[0] && (long)g->domains_amount[1] == dom[1] && g->domains_amount.size() == 2, "case %ld: %zu x %zu domains, want %ld x %ld", n, g->domains_amount[0], g->domains_amount[1], dom[0], dom[1]);
#ifdef ENABLE_PML
  size_t want[4] = {0, (size_t)floor(pml[0] * nz), (size_t)floor(pml[2] * nr), (size_t)floor(pml[1] * nz)};
  for (int w = 0; w < 4; ++w) CHECK(g->pml_size[w] == want[w], "case %ld: layer %d of %zu cells, want %zu", n, w, g->pml_size[w], want[w]);
  CHECK(g->pml_sigma[0] == sg[0] && g->pml_sigma[1] == sg[1], "case %ld: sigma %g %g", n, g->pml_sigma[0], g->pml_sigma[1]);
#endif
  CHECK(c->time->start == t[0] && c->time->end == t[1] && c->time->step == t[2] && c->time->current == 0, "case %ld: time %g %g %g %g", n, c->time->start, c->time->end, c->time->step, c->time->current);
  CHECK(c->macro_amount == macro && c->beam_macro_ratio == (unsigned)ratio, "case %ld: macro %g %u", n, c->macro_amount, c->beam_macro_ratio);
  double cells = (double)nr * nz, share = cells * S.size(), sum = 0;
  for (auto &b : B) share += b.rad / (R / nr) * b.len * b.amount / (Z / nz) * ratio;
  auto near = [&](double have, double v) { return (have == floor(v) || fabs(v - round(v)) < 1e-6) && fabs(have - v) < 1 + 1e-6 && have == floor(have); };
  CHECK(c->particle_species.size() == S.size(), "case %ld: %zu species", n, c->particle_species.size());
  for (size_t k = 0; k < S.size() && k < c->particle_species.size(); ++k) {
    auto &q = c->particle_species[k]; sum += q.macro_amount;
    CHECK(q.name == S[k].name && (int)q.mass == S[k].mass && q.charge == S[k].charge && q.left_density == S[k].density && q.right_density == S[k].density && q.temperature == S[k].temp, "case %ld: species %s %u %d %g %g %g", n, q.name.c_str(), q.mass, q.charge, q.left_density, q.right_density, q.temperature);
    CHECK(near(q.macro_amount, cells * macro / share), "case %ld: %g macroparticles of %s, want %g", n, q.macro_amount, q.name.c_str(), cells * macro / share);
    for (size_t l = 0; l < k; ++l) CHECK(c->particle_species[l].id != q.id, "case %ld: %s and %s have the same id", n, q.name.c_str(), c->particle_species[l].name.c_str());
  }
  CHECK(c->particle_beams.size() == B.size(), "case %ld: %zu beams", n, c->particle_beams.size());
  for (size_t k = 0; k < B.size() && k < c->particle_beams.size(); ++k) {
    auto &q = c->particle_beams[k]; Bm &b = B[k]; sum += q.macro_amount;
    CHECK(q.name == "beam_" + b.name && (int)q.mass == b.mass && q.charge == b.charge && q.density == b.density && q.velocity == b.vel && q.bunches_amount == b.amount && q.start_time == b.start && q.bunches_distance == b.gap
          && q.bunch_length == b.len && q.bunch_radius == b.rad && q.current_bunch_number == 0 && q.radial_profile == b.rp && q.longitudinal_profile == b.lp, "case %ld: beam %s %u %d %g %g %d %g %g %g %g", n, q.name.c_str(), q.mass, q.charge, q.density, q.velocity, q.bunches_amount, q.start_time, q.bunches_distance, q.bunch_length, q.bunch_radius);
    double v = b.rad / (R / nr) * b.len * b.amount / (Z / nz) * ratio * macro / share;
    CHECK(near(q.macro_amount, v), "case %ld: %g macroparticles of %s, want %g", n, q.macro_amount, q.name.c_str(), v);
    for (auto &s : c->particle_species) CHECK(s.id != q.id, "case %ld: %s and %s have the same id", n, q.name.c_str(), s.name.c_str());
  }
  CHECK(sum <= macro * (1 + 1e-12), "case %ld: %g macroparticles, asked for %g", n, sum, macro);
  CHECK(c->probes.size() == P.size(), "case %ld: %zu probes of %zu", n, c->probes.size(), P.size());
  for (size_t k = 0; k < P.size() && k < c->probes.size(); ++k) {
    auto &q = c->probes[k]; Pr &p = P[k];
    unsigned s = p.shape == "rec" ? 0 : p.shape == "col" ? 1 : p.shape == "row" ? 2 : 3;
    size_t d[4] = {s ? 0 : (size_t)p.r0, s ? 0 : (size_t)p.z0, s == 1 ? 0 : (size_t)p.r1, s == 2 ? 0 : (size_t)p.z1};
    CHECK(q.component == p.comp && q.specie == p.specie && q.shape == s && (int)q.schedule == p.sch, "case %ld: probe %s %s %u %u", n, q.component.c_str(), q.specie.c_str(), q.shape, q.schedule);
    CHECK(q.dims.size() == 4, "case %ld: window of %zu numbers", n, q.dims.size());
    for (size_t i = 0; i < q.dims.size() && i < 4; ++i) CHECK(q.dims[i] == d[i], "case %ld: window %s [%zu] is %zu, want %zu", n, p.shape.c_str(), i, q.dims[i], d[i]);
    bool own = p.comp == "temperature" || p.comp == "energy" || p.comp == "density" || p.comp.compare(0, 9, "momentum/") == 0;
    std::string path = p.comp + "/" + (own ? p.specie + "/" : "") + p.shape + "/"; auto ts = [](long v) { return std::to_string(v); };
    path += s == 0 ? ts(p.r0) + "-" + ts(p.r1) + "_" + ts(p.z0) + "-" + ts(p.z1) : s == 1 ? ts(p.z1) : s == 2 ? ts(p.r1) : ts(p.r1) + "_" + ts(p.z1);
    CHECK(q.path == path, "case %ld: path %s, want %s", n, q.path.c_str(), path.c_str());
  }
  CHECK(std::string(c->output_data->data_root) == "some/where" && c->output_data->compress == zip && c->output_data->compress_level == level, "case %ld: output %s %d %d", n, c->output_data->data_root, c->output_data->compress, c->output_data->compress_level);
#ifdef ENABLE_EXTERNAL_FIELDS
  CHECK(c->external_fields.size() == 2 && c->external_fields[0].name == "electric" && c->external_fields[0].formfactor == "none" && c->external_fields[0].params == std::vector<double>({1.5, 2.5, 3}) && c->external_fields[1].name == "magnetic" && c->external_fields[1].formfactor == "const_z" && c->external_fields[1].params == std::vector<double>({7}), "case %ld: external fields", n);
#endif
}
