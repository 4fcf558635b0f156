// Node variables: C15 (and the node-variable part of C13/C14 lives in commands.cpp).
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source NodeVariableService.cpp
#include "node.h"
#include "NodeVariableService.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

struct NvNode : Node
{
  NodeVariableService *nv; unsigned nn;
  NvNode(unsigned size, byte nvs, byte events, byte evs) : Node(size) { geometry(nvs, events, evs); nv = MAKE(NodeVariableService); }
  void go() { start(MAKE(Controller, conf, {nv, rec})); nn = conf->nodeNum; }
};
// one arbitrary request on arbitrary contents
static void request(int nvs, int opc, bool readAll = false)
{
  if (!readAll && (nvs > 0 || opc == OPC_NVRD)) sx_need("answered");
  if (!readAll && (nvs < 255 || opc != OPC_NVRD)) sx_need("refused");
  unsigned size = 10 + nvs + 2 * 6;
  NvNode *n = new NvNode(size, nvs, 2, 2);
  regularSettings(n->mem, MODE_NORMAL); n->mem->symbolic(10, size);
  n->go(); unsigned nn = n->nn;
  byte *old = new byte[size]; for (unsigned i = 0; i < size; i++) old[i] = n->mem->m[i];
  Msg m = symMsg(opc == OPC_NVRD ? 4 : 5);
  m.d[0] = opc; m.d[1] = hi(nn); m.d[2] = lo(nn);
  byte ix = m.d[3], val = m.d[4];
  bool write = opc != OPC_NVRD;
  if (readAll) sx_assume(ix == 0);
  else if (nvs > 29) sx_assume(ix != 0 || write);   // the list of all variables is longer than the message queue: C15_readall_40
  bool valid = write ? (ix >= 1 && ix <= nvs) : ix <= nvs;
  n->receive(m);
  Recorder &r = *n->rec;
  bool eq = true; for (unsigned i = 0; i < size; i++) eq = eq & (n->mem->m[i] == (valid && write && i == 9u + ix ? val : old[i]));
  sx_assert(eq, "only the named variable changes, to the given value");
  if (!valid)
  {
    sx_cover("refused");
    sx_assert(both(r, GRSPM(opc, SERVICE_ID_NV, CMDERR_INV_NV_IDX), CMDERRM(CMDERR_INV_NV_IDX)), "an invalid index is answered with the two error messages");
    return;
  }
  sx_cover("answered");
  if (opc == OPC_NVSET) sx_assert(only(r, WRACKM), "a write is acknowledged");
  else if (opc == OPC_NVSETRD) sx_assert(only(r, M(OPC_NVANS, hi(nn), lo(nn), ix, val)), "set-and-read returns the new value");
  else if (ix != 0) sx_assert(only(r, M(OPC_NVANS, hi(nn), lo(nn), ix, old[9 + ix])), "a read returns the stored value");
  else
  {
    // whatever is answered is, in order, the end of the list
    int lost = nvs + 1 - r.n; sx_assert(lost >= 0 && (lost == 0 || r.n >= 30), "at least as many messages as can be queued");
    for (int i = lost; i <= nvs; i++) sx_assert(same(r.out[i - lost], i ? M(OPC_NVANS, hi(nn), lo(nn), i, old[9 + i]) : M(OPC_NVANS, hi(nn), lo(nn), 0, nvs)), "count first, then the variables in order with their values");
    sx_assert(lost == 0, "read all returns the count and every variable");
  }
}
CASE(C15_read_0) { request(0, OPC_NVRD); }
CASE(C15_set_0) { request(0, OPC_NVSET); }
CASE(C15_setrd_0) { request(0, OPC_NVSETRD); }
CASE(C15_read_1) { request(1, OPC_NVRD); }
CASE(C15_set_1) { request(1, OPC_NVSET); }
CASE(C15_setrd_1) { request(1, OPC_NVSETRD); }
CASE(C15_read_4) { request(4, OPC_NVRD); }
CASE(C15_set_4) { request(4, OPC_NVSET); }
CASE(C15_setrd_4) { request(4, OPC_NVSETRD); }
CASE(C15_read_28) { request(28, OPC_NVRD); }
CASE(C15_set_28) { request(28, OPC_NVSET); }
CASE(C15_setrd_28) { request(28, OPC_NVSETRD); }
CASE(C15_read_120) { request(120, OPC_NVRD); }
CASE(C15_set_120) { request(120, OPC_NVSET); }
CASE(C15_setrd_120) { request(120, OPC_NVSETRD); }
CASE(C15_read_255) { request(255, OPC_NVRD); }
CASE(C15_set_255) { request(255, OPC_NVSET); }
CASE(C15_setrd_255) { request(255, OPC_NVSETRD); }
CASE(C15_readall_29) { request(29, OPC_NVRD, true); }
CASE(C15_readall_40) { request(40, OPC_NVRD, true); }
