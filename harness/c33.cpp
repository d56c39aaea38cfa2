// C33: memory is given back.  The cases of the other checks, run again with the
// heap watched: the objects of their harnesses are linked in, each with its
// names made local and its main() renamed (see build.py).
// WITH c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24 c25
#include "pure.h"
#include <algorithm>
using namespace pbt;
#define EACH(X) X(02) X(03) X(04) X(05) X(06) X(07) X(08) X(09) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25)
#define DECL(n) extern "C" int main_c##n(int, char **);
EACH(DECL)

int main(int argc, char **argv) {
  Property p;
  p.id = "C33";
  p.rule_text =
      "The cases of the other checks of the library (histories, algorithms, text and refusals over every type, a share of each "
      "rule), each run three more times in one process with every allocation counted: an execution whose values are all "
      "destroyed leaves no more blocks than there were before it, twice in a row, and touches no memory it does not own. "
      "Whether the answers are right is not asked here. Non-trivial: as in the check the case is from.";
  p.assumptions = {"what a library keeps for good on first use is not a leak"};
  std::vector<Property> all;
  collect_properties = &all;
  char *none[] = {(char *)"c33", nullptr};
#define RUN(n) main_c##n(1, none);
  EACH(RUN)
  collect_properties = nullptr;
  for (auto &q : all)
    for (auto &r : q.rules) {
      auto body = r.run;
      p.add(q.id + "-" + r.name, std::max<uint64_t>(12, r.quick_cases / 20), std::max<uint64_t>(12, r.thorough_cases / 20),
          [body](Gen &g, Ctx &c) {
            try {
              body(g, c);
            } catch (const Fail &) { // of another property
            } catch (const std::exception &) {
            }
          }, true);
    }
  p.add("calls", 1500, 40000, [](Gen &g, Ctx &c) { pure::independent(g, c, ""); }, true);
  return engine_main(argc, argv, p);
}
