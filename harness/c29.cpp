// C29: the pseudorandom generator.
#include "engine.h"
#include "spffl/bitrand/psdes.h"
#include <cstdio>
#include <unistd.h>
#include <vector>
using namespace pbt;
namespace br = spffl::bitrand;
typedef uint32_t w32;
typedef uint64_t w64;

// Four rounds of a Feistel network (Numerical Recipes, psdes), written from
// its description: the right half goes through f and is exchanged.
static w64 model_hash(w64 s) {
  const w32 k1[4] = {0xbaa96887, 0x1e17d32c, 0x03bcdc3c, 0x0f33d1b2};
  const w32 k2[4] = {0x4b0f3b58, 0xe874f0c3, 0x6955c5a6, 0x55a7ca46};
  w32 l = (w32)(s >> 32), r = (w32)s;
  for (int i = 0; i < 4; i++) {
    w64 x = r ^ k1[i];
    w64 lo = x % 65536, hi = x / 65536;
    w64 sum = (lo * lo + (0xffffffffull - (hi * hi) % 4294967296ull)) % 4294967296ull;
    w64 sw = sum / 65536 + (sum % 65536) * 65536;
    w64 f = ((sw ^ k2[i]) + lo * hi) % 4294967296ull;
    w32 nr = (w32)(l ^ f);
    l = r;
    r = nr;
  }
  return (w64)l << 32 | r;
}
static w64 model_unhash(w64 s) { // rounds undone, last first
  const w32 k1[4] = {0xbaa96887, 0x1e17d32c, 0x03bcdc3c, 0x0f33d1b2};
  const w32 k2[4] = {0x4b0f3b58, 0xe874f0c3, 0x6955c5a6, 0x55a7ca46};
  w32 l = (w32)(s >> 32), r = (w32)s;
  for (int i = 3; i >= 0; i--) {
    w64 x = l ^ k1[i];
    w64 lo = x % 65536, hi = x / 65536;
    w64 sum = (lo * lo + (0xffffffffull - (hi * hi) % 4294967296ull)) % 4294967296ull;
    w64 sw = sum / 65536 + (sum % 65536) * 65536;
    w32 pl = (w32)(r ^ (w32)(((sw ^ k2[i]) + lo * hi) % 4294967296ull));
    r = l;
    l = pl;
  }
  return (w64)l << 32 | r;
}
static w32 gen32(Gen &g) {
  switch (g.below(4)) {
  case 0: return (w32)g.below((w64)1 << 32);
  case 1: return (w32)g.below(8);
  case 2: return 0xffffffffu - (w32)g.below(8);
  default: return (w32)1 << g.below(32);
  }
}
static void hash(Gen &g, Ctx &c) {
  w32 a = gen32(g), b = gen32(g);
  w64 s = (w64)a << 32 | b, want = model_hash(s);
  c.log << std::hex << s;
  c.nontrivial = true;
  br::psdes_hash_64(a, b);
  REQUIRE_(c, ((w64)a << 32 | b) == want, std::hex << "hash is " << a << " " << b << ", not " << want);
  // one state bit flipped gives another value: the hash is one to one
  w64 t = s ^ (w64)1 << g.below(64);
  w32 d = (w32)(t >> 32), e = (w32)t;
  br::psdes_hash_64(d, e);
  REQUIRE_(c, d != a || e != b, "two states have one hash");
}
static float unit(w32 v) { return (float)(v & 0x7fffff) / 8388608.0f; }
// histories: interleaved streams and reseedings against states kept here
static void streams(Gen &g, Ctx &c) {
  struct S {
    w32 s0, s1;
    w64 m;
  };
  std::vector<S> st;
  int n = 1 + (int)g.below(3);
  for (int i = 0; i < n; i++) {
    w32 a = gen32(g), b = gen32(g);
    st.push_back({a, b, (w64)a << 32 | b});
  }
  w32 s = gen32(g);
  br::sran32(s);
  w64 global = s;
  bool known = true; // the global state, but for a seeding by the clock
  int steps = 1 + (int)g.below(40), wraps = 0;
  c.log << n << " streams, " << steps << " steps";
  for (int i = 0; i < steps; i++) {
    int op = (int)g.below(g.chance(1, 4) ? 10 : 8), k = (int)g.below((w64)n);
    S &x = st[(size_t)k];
    c.log << " " << op << ":" << k;
    if (op < 3 && (w32)x.m == 0xffffffffu) wraps++;
    if (!known && op > 2 && op < 6) { // one pair tells it
      w32 a = 0, b = 0;
      br::iran64(a, b);
      global = model_unhash((w64)a << 32 | b) + 1;
      known = true;
    }
    w64 h = model_hash(op < 3 ? x.m : global);
    switch (op) {
    case 0: {
      w32 v = br::iran32_r(x.s0, x.s1);
      REQUIRE_(c, v == (w32)h, "word " << v);
      x.m++;
      break;
    }
    case 1: {
      w32 a = 0, b = 0;
      br::iran64_r(a, b, x.s0, x.s1);
      REQUIRE_(c, ((w64)a << 32 | b) == h, "pair");
      x.m++;
      break;
    }
    case 2: {
      float f = br::fran32_r(x.s0, x.s1);
      REQUIRE_(c, f >= 0 && f < 1 && f == unit((w32)h), "fraction " << f);
      x.m++;
      break;
    }
    case 3: {
      w32 v = br::iran32();
      REQUIRE_(c, v == (w32)h, "global word " << v);
      global++;
      break;
    }
    case 4: {
      w32 a = 0, b = 0;
      br::iran64(a, b);
      REQUIRE_(c, ((w64)a << 32 | b) == h, "global pair");
      global++;
      break;
    }
    case 5: {
      float f = br::fran32();
      REQUIRE_(c, f >= 0 && f < 1 && f == unit((w32)h), "global fraction " << f);
      global++;
      break;
    }
    case 6: {
      w32 v = gen32(g);
      br::sran32(v);
      global = v;
      known = true;
      break;
    }
    case 7: {
      w32 a = gen32(g), b = gen32(g);
      br::sran32b(a, b);
      global = (w64)a << 32 | b;
      known = true;
      break;
    }
    case 8: br::sran32_timeofday(); known = false; break;
    case 9:
      br::sran32_timeofday_r(x.s0, x.s1);
      x.m = (w64)x.s0 << 32 | x.s1;
      break;
    }
    for (auto &y : st)
      REQUIRE_(c, ((w64)y.s0 << 32 | y.s1) == y.m, std::hex << "state is " << y.s0 << " " << y.s1 << ", not " << y.m);
  }
  c.nontrivial = steps > 5;
  c.label(wraps ? "the low word wraps around" : "no wrap");
}
// a program that draws without seeding: run anew, since a process seeds once
static int unseeded(const char *ops) {
  for (; *ops; ops++) {
    w32 a = 0, b = 0;
    if (*ops == 'p') br::iran64(a, b), printf("%x %x\n", a, b);
    if (*ops == 'w') printf("0 %x\n", br::iran32());
    if (*ops == 'f') printf("0 %x\n", (w32)(br::fran32() * 8388608.0f));
  }
  return 0;
}
static void self_seeded(Gen &g, Ctx &c) {
  std::string ops = "p";
  int n = 2 + (int)g.below(8);
  for (int i = 0; i < n; i++) ops += "pwf"[g.below(3)];
  // the pair that tells the state comes anywhere
  std::swap(ops[0], ops[(size_t)g.below(ops.size())]);
  c.log << "unseeded draws " << ops;
  c.nontrivial = true;
  char self[4096];
  ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
  if (k <= 0) throw Discard();
  self[k] = 0;
  FILE *f = popen((std::string(self) + " --unseeded " + ops).c_str(), "r");
  std::vector<w64> out;
  unsigned a, b;
  while (f && fscanf(f, "%x %x", &a, &b) == 2) out.push_back((w64)a << 32 | b);
  if (f) pclose(f);
  REQUIRE_(c, out.size() == ops.size(), out.size() << " draws");
  size_t at = ops.find('p');
  w64 s = model_unhash(out[at]) - at;
  for (size_t i = 0; i < ops.size(); i++) {
    w64 h = model_hash(s + i), want = ops[i] == 'p' ? h : ops[i] == 'w' ? (w32)h : (w32)h & 0x7fffff;
    REQUIRE_(c, out[i] == want, "draw " << i << " does not continue the stream");
  }
}
int main(int argc, char **argv) {
  if (argc == 3 && std::string(argv[1]) == "--unseeded") return unseeded(argv[2]);
  Property p;
  p.id = "C29";
  p.rule_text =
      "States of every shape (random, near 0, near the 32-bit wrap, single bits): the 64-bit hash against a model written from "
      "its description, and one to one on neighbours; histories of up to 40 draws, interleaving up to three caller-owned "
      "streams with the global one and reseedings (by value and by the clock), each output and state compared with the model; programs that draw without seeding. Non-trivial: more than five "
      "steps.";
  p.assumptions = {};
  p.add("hash", 1600000, 4000000, hash);
  p.add("streams", 480000, 1000000, streams);
  // the header's documented outputs, and Numerical Recipes' test values
  p.add("unseeded", 120, 3000, self_seeded);
  p.add("documented", 3200, 1000, [](Gen &g, Ctx &c) {
    static const w64 t[][2] = {{0x0000000100000001ull, 0x604d1dce509c0c23ull}, {0x0000000100000063ull, 0xd97f8571a66cb41aull},
        {0x0000006300000001ull, 0x7822309d64300984ull}, {0x0000006300000063ull, 0xd7f376f059ba89ebull},
        {0x00000002fffffffcull, 0x57733ef0998adaeaull}, {0x00000002fffffffdull, 0xe486359a3e59f158ull},
        {0x00000002fffffffeull, 0x624cb3680dd3090cull}, {0x00000002ffffffffull, 0x5e920cb5bfc315ceull},
        {0x0000000300000000ull, 0xadcd49eef6f27d08ull}, {0x0000000300000001ull, 0x786f6a22d7df7670ull}};
    size_t i = (size_t)g.below(10);
    c.log << std::hex << t[i][0];
    c.nontrivial = true;
    w32 s0 = (w32)(t[i][0] >> 32), s1 = (w32)t[i][0], a = 0, b = 0;
    br::iran64_r(a, b, s0, s1);
    REQUIRE_(c, ((w64)a << 32 | b) == t[i][1], std::hex << "hash is " << a << " " << b << ", documented " << t[i][1]);
    REQUIRE_(c, model_hash(t[i][0]) == t[i][1], "the model disagrees with the documentation");
  });
  return engine_main(argc, argv, p);
}
