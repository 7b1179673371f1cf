// Shared ABI between the workload/monitor engine and a device under test
// (Verilated cache model, or the PyMTL simulation through ctypes callbacks).
#pragma once
#include <cstdint>
#include <string>
#define NWORDS 24
extern "C" {
struct DutIn {
  uint8_t reset, req_en, resp_rdy, memreq_rdy, memresp_en, pad[3];
  uint32_t req[NWORDS];
  uint32_t memresp[NWORDS];
};
struct DutOut {
  uint8_t req_rdy, resp_en, memreq_en, memresp_rdy, pad[4];
  uint32_t resp[NWORDS];
  uint32_t memreq[NWORDS];
};
struct DutVT {
  void* (*create)(int core, uint64_t xseed);
  void (*destroy)(void*);
  void (*eval)(void*, const DutIn*, DutOut*);
  void (*tick)(void*, const DutIn*);
};
// argv-style entry; returns a malloc'ed JSON report
char* engine_run(int argc, const char** argv, const DutVT* vt);
void engine_free(char*);
}
