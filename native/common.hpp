// Replay / conformance drivers: run the real code on concrete inputs and check
// the property's contract in floating point.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <vector>
#include <string>
#include <random>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <sys/types.h>
#include <unistd.h>
#include "loguru.hpp"
static std::mt19937_64 RNG;
static long CASES = 0, FAILS = 0;
static double U(double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(RNG); }
static long I(long a, long b) { return std::uniform_int_distribution<long>(a, b)(RNG); }
static bool close(double a, double b, double scale, double tol = 1e-8)
{ return std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)) + tol * 1e-2 * std::fabs(scale); }
#define FAIL(...) do { ++FAILS; if (FAILS <= 20) { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
void one_case(long n);
int main(int argc, char **argv)
{
  long seed = argc > 1 ? atol(argv[1]) : 1, n = argc > 2 ? atol(argv[2]) : 100;
  for (long i = 0; i < n && FAILS < 20; ++i)
  {
    RNG.seed(seed * 1000003 + i);
    try { one_case(i); }
    catch (VerifFatal &f) { FAIL("case %ld: unexpected FATAL: %s", i, f.what.c_str()); }
    ++CASES;
  }
  printf("cases=%ld fails=%ld\n", CASES, FAILS);
  fflush(stdout);
  _exit(FAILS ? 1 : 0);
}
