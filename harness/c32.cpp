// C32: results depend on the arguments alone.
#include "pure.h"
using namespace pbt;
int main(int argc, char **argv) {
  Property p;
  p.id = "C32";
  p.rule_text =
      "Calls of some hundred forms of operation (integers, residues, polynomials, polynomial residues and towers, factorization, "
      "totients, orders, generators, logarithms, linear algebra, characteristic and minimal polynomials, conversion, lists, "
      "cyclotomic polynomials, reduction) on arguments from a small pool, two to five calls a case that often differ in one "
      "argument, made over and over in a random order: each call must give the same text every time, and calls with equal "
      "arguments equal texts. Non-trivial: at least two calls made.";
  p.assumptions = {};
  struct { const char *tag; int quick, thorough; } tags[] = {{"C01", 1000, 40000}, {"C02", 1000, 40000}, {"C04", 500, 20000}, {"C05", 500, 20000},
      {"C06", 500, 20000}, {"C08", 500, 20000}, {"C09", 400, 16000}, {"C11", 150, 6000}, {"C12", 400, 12000}, {"C13", 300, 10000},
      {"C14", 400, 12000}, {"C17", 400, 16000}, {"C19", 400, 12000}, {"C20", 120, 5000}, {"C21", 300, 10000}, {"C23", 600, 20000}};
  for (auto &t : tags)
    p.add(std::string("within-") + t.tag, (uint64_t)t.quick, (uint64_t)t.thorough, [t](Gen &g, Ctx &c) { pure::independent(g, c, t.tag); });
  p.add("mixed", 2500, 80000, [](Gen &g, Ctx &c) { pure::independent(g, c, ""); });
  return engine_main(argc, argv, p);
}
