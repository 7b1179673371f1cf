// Glue between the engine ABI and a Verilated cache; MODEL/HDR come from -D.
#include <verilated.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>

#include "engine.h"
#include HDR
template <class T>
static void put(T& p, const uint32_t* w) {
  if constexpr (sizeof(T) <= 4) p = (T)w[0];
  else p = (T)(w[0] | ((uint64_t)w[1] << 32));
}
template <std::size_t N>
static void put(VlWide<N>& p, const uint32_t* w) {
  for (std::size_t i = 0; i < N; i++) p[i] = w[i];
}
template <class T>
static void get(const T& p, uint32_t* w) {
  memset(w, 0, NWORDS * 4);
  if constexpr (sizeof(T) <= 4) w[0] = p;
  else {
    w[0] = (uint32_t)p;
    w[1] = (uint32_t)((uint64_t)p >> 32);
  }
}
template <std::size_t N>
static void get(const VlWide<N>& p, uint32_t* w) {
  memset(w, 0, NWORDS * 4);
  for (std::size_t i = 0; i < N; i++) w[i] = p[i];
}
struct D {
  VerilatedContext* c;
  MODEL* m;
};
static void* create(int, uint64_t x) {
  D* d = new D;
  d->c = new VerilatedContext;
  d->c->randReset(2);
  d->c->randSeed((int)(x & 0x7fffffff) | 1);
  d->m = new MODEL(d->c);
  d->m->clk = 0;
  return d;
}
static void destroy(void* p) {
  D* d = (D*)p;
  d->m->final();
  delete d->m;
  delete d->c;
  delete d;
}
static void ev(void* p, const DutIn* in, DutOut* o) {
  MODEL* m = ((D*)p)->m;
  m->clk = 0;  // falls together with the inputs' change: the design has no negedge logic, and ev() always precedes tick()
  m->reset = in->reset;
  m->mem_minion_ifc___05Freq___05Fen = in->req_en;
  m->mem_minion_ifc___05Fresp___05Frdy = in->resp_rdy;
  m->mem_master_ifc___05Freq___05Frdy = in->memreq_rdy;
  m->mem_master_ifc___05Fresp___05Fen = in->memresp_en;
  put(m->mem_minion_ifc___05Freq___05Fmsg, in->req);
  put(m->mem_master_ifc___05Fresp___05Fmsg, in->memresp);
  m->eval();
  o->req_rdy = m->mem_minion_ifc___05Freq___05Frdy;
  o->resp_en = m->mem_minion_ifc___05Fresp___05Fen;
  o->memreq_en = m->mem_master_ifc___05Freq___05Fen;
  o->memresp_rdy = m->mem_master_ifc___05Fresp___05Frdy;
  get(m->mem_minion_ifc___05Fresp___05Fmsg, o->resp);
  get(m->mem_master_ifc___05Freq___05Fmsg, o->memreq);
}
static void tick(void* p, const DutIn*) {
  MODEL* m = ((D*)p)->m;
  m->clk = 1;
  m->eval();
}
int main(int argc, char** argv) {
  DutVT vt{create, destroy, ev, tick};
  char* r = engine_run(argc - 1, (const char**)argv + 1, &vt);
  puts(r);
  engine_free(r);
  return 0;
}
double sc_time_stamp() { return 0; }
