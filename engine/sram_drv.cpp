// Random traffic against a Verilated single-port SRAM and a bit-accurate oracle.
// -DHDR -DMODEL -DNB -DNW, -DSHELL: SramPRTL-style ports, otherwise SramGenericPRTL-style ports.
#include <verilated.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include HDR
typedef std::vector<uint32_t> W;
static const int NWD = (NB + 31) / 32;
template <class T>
static void put(T& p, const W& w) {
  if constexpr (sizeof(T) <= 4) p = (T)w[0];
  else p = (T)(w[0] | ((uint64_t)w[1] << 32));
}
template <std::size_t N>
static void put(VlWide<N>& p, const W& w) {
  for (std::size_t i = 0; i < N; i++) p[i] = w[i];
}
template <class T>
static W get(const T& p) {
  W w(NWD, 0);
  w[0] = (uint32_t)p;
  if (sizeof(T) > 4 && NWD > 1) w[1] = (uint32_t)((uint64_t)p >> 32);
  return w;
}
template <std::size_t N>
static W get(const VlWide<N>& p) {
  W w(NWD, 0);
  for (std::size_t i = 0; i < N && (int)i < NWD; i++) w[i] = p[i];
  return w;
}
static uint64_t st;
static uint64_t rnd() {
  uint64_t z = (st += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static W rw() {
  W w(NWD);
  for (auto& x : w) x = (uint32_t)rnd();
  if (NB % 32) w[NWD - 1] &= (1u << (NB % 32)) - 1;
  return w;
}
static std::string hx(const W& w) {
  std::string s;
  char b[16];
  for (int i = NWD - 1; i >= 0; i--) {
    snprintf(b, 16, "%08x", w[i]);
    s += b;
  }
  return s;
}
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 10);
  long n = atol(argv[2]);
  st = seed * 7919 + 13;
  VerilatedContext cx;
  cx.randReset(2);
  cx.randSeed((int)(seed & 0xffffff) | 1);
  MODEL m(&cx);
  std::vector<W> mem(NW, W(NWD, 0)), known(NW, W(NWD, 0));
  m.clk = 0;
  m.reset = 0;
  long writes = 0, reads = 0, idle = 0, partial = 0, masked = 0;
  bool chk = false;
  int ra = 0;
  W exp, ek;
  std::string err;
  bool phase2 = false;
  long total = n + NW + 1;
  int hot = 0;
  for (long i = 0; i < total && err.empty(); i++) {
    phase2 = i >= n;
    bool val = phase2 || rnd() % 4;
    bool wr = !phase2 && rnd() % 2;
    if (rnd() % 8 == 0) hot = rnd() % NW;
    int a = phase2 ? (int)((i - n) % NW) : rnd() % 3 ? hot : (int)(rnd() % NW);
    W d = rw(), be = rw();
    switch (rnd() % 4) {
      case 0: be.assign(NWD, ~0u); break;
      case 1: be.assign(NWD, 0); be[rnd() % NWD] = 1u << (rnd() % 32); break;
      default: break;
    }
    if (NB % 32) be[NWD - 1] &= (1u << (NB % 32)) - 1;
    bool oe = phase2 || rnd() % 8;
#ifdef SHELL
    oe = true;
    m.port0_val = val;
    m.port0_type = wr;
    m.port0_idx = a;
    put(m.port0_wdata, d);
    put(m.port0_wben, be);
#else
    m.CSB1 = !val;
    m.WEB1 = !wr;
    m.OEB1 = !oe;
    m.CE1 = 0;
    m.A1 = a;
    put(m.I1, d);
    put(m.WBM1, be);
#endif
    m.eval();
#ifdef SHELL
    W q = get(m.port0_rdata);
#else
    W q = get(m.O1);
#endif
    if (!oe) {
      masked++;
      for (int k = 0; k < NWD; k++)
        if (q[k]) err = "output enable off but data " + hx(q);
    } else if (chk) {
      for (int k = 0; k < NWD; k++)
        if ((q[k] ^ exp[k]) & ek[k])
          err = "read of word " + std::to_string(ra) + " returned " + hx(q) + ", last written " + hx(exp) + " (mask " + hx(ek) + ")";
    }
    chk = false;
    if (val && !wr) {
      chk = true;
      reads++;
      ra = a;
      exp = mem[a];
      ek = known[a];
    } else if (val) {
      writes++;
      bool p = false;
      for (int k = 0; k < NWD; k++) {
        mem[a][k] = (mem[a][k] & ~be[k]) | (d[k] & be[k]);
        known[a][k] |= be[k];
        if (be[k] != ~0u) p = true;
      }
      partial += p;
    } else idle++;
    m.clk = 1;
    m.eval();
    m.clk = 0;
    m.eval();
  }
  for (char& ch : err)
    if (ch == '"') ch = '\'';
  printf("{\"writes\":%ld,\"reads\":%ld,\"idle\":%ld,\"partial\":%ld,\"masked\":%ld,\"err\":\"%s\"}\n", writes, reads, idle, partial,
         masked, err.c_str());
  return 0;
}
double sc_time_stamp() { return 0; }
