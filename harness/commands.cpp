// Whole modules and arbitrary messages: C10 restart, C11 storage footprint, C13 other nodes, C14 truncated commands, C17 diagnostics.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source MinimumNodeServiceWithDiagnostics.cpp
// @source CanService.cpp
// @source CanServiceWithDiagnostics.cpp
// @source NodeVariableService.cpp
// @source EventTeachingService.cpp
// @source EventTeachingServiceWithDiagnostics.cpp
// @source EventConsumerService.cpp
// @source EventConsumerServiceWithDiagnostics.cpp
// @source EventProducerService.cpp
// @source EventProducerServiceWithDiagnostics.cpp
#include "fullnode.h"

enum { NVS = 2, EVENTS = 2, EVS = 2 };
static bool oneOf(byte v, const byte *l, int n) { bool r = false; for (int i = 0; i < n; i++) r = r | (v == l[i]); return r; }
static Msg anyMsg(int from = 1) { Msg m; m.len = sx_range("len", from, 8); for (int i = 0; i < 8; i++) { byte b = sx_u8("d"); m.d[i] = i < m.len ? b : 0; } return m; }
static unsigned addressee(const Msg &m) { return m.d[1] * 256u + m.d[2]; }
static byte *copy(const byte *p, unsigned n) { byte *c = (byte *)malloc(n); memcpy(c, p, n); return c; }
static bool equal(const byte *a, const byte *b, unsigned n) { bool r = true; for (unsigned i = 0; i < n; i++) r = r & (a[i] == b[i]); return r; }

// a module in one of its operating modes, with arbitrary stored data
static int someMode() { int k = sx_fork(sx_range("mode", 0, 2)); return k == 0 ? MODE_SETUP : k == 1 ? MODE_NORMAL : MODE_UNINITIALISED; }
static void prepare(FullNode *n, Kind kind, int mode, bool learn, const byte *from = nullptr)
{
  if (from) memcpy(n->mem->m, from, n->mem->size);
  else
  {
    regularSettings(n->mem, mode == MODE_SETUP ? MODE_NORMAL : mode); if (mode == MODE_UNINITIALISED) n->mem->m[2] = n->mem->m[3] = 0;
    n->mem->symbolic(10, n->mem->size);
  }
  n->go(kind);
  if (mode == MODE_SETUP) { n->ctl->putAction(ACT_RENEGOTIATE); n->drain(); }
  if (learn) n->receive(M(OPC_NNLRN, hi(n->nn), lo(n->nn)));
  n->rec->clear(); n->bus->nout = 0;
}
static FullNode *module(Kind kind, int mode, bool learn) { FullNode *n = new FullNode(NVS, EVENTS, EVS); prepare(n, kind, mode, learn); return n; }
// a second module that went through the same start
static FullNode *twin(FullNode *n, Kind kind, int mode, bool learn, const byte *initial) { FullNode *t = new FullNode(NVS, EVENTS, EVS); prepare(t, kind, mode, learn, initial); return t; }
static void sameState(FullNode *a, FullNode *b, const char *why)
{
  bool ok = equal(a->mem->m, b->mem->m, a->mem->size);
  ok = ok & (a->conf->nodeNum == b->conf->nodeNum) & (a->conf->CANID == b->conf->CANID) & (a->conf->currentMode == b->conf->currentMode) & (a->conf->heartbeat == b->conf->heartbeat) & (a->conf->eventAck == b->conf->eventAck);
  ok = ok & equal(a->params, b->params, 21);
  sx_assert(ok, why);
}
static void sameOutput(FullNode *a, FullNode *b, const char *why)
{
  sx_assert(a->rec->n == b->rec->n && a->rec->enumReq == b->rec->enumReq && a->rec->modes == b->rec->modes && a->bus->nout == b->bus->nout, why);
  bool ok = true; for (int i = 0; i < a->rec->n; i++) { ok = ok & (a->rec->out[i].len == b->rec->out[i].len); for (int k = 0; k < 8; k++) ok = ok & (a->rec->out[i].d[k] == b->rec->out[i].d[k]); }
  sx_assert(ok, why);
}
// what the two modules do from here on is the same: state, and reactions to a later message and poll
static void indistinguishable(FullNode *a, FullNode *b, bool probe, const char *why)
{
  sameState(a, b, why);
  a->rec->clear(); b->rec->clear(); a->bus->nout = b->bus->nout = 0;
  if (probe)
  {
    Msg p = anyMsg(3); sx_assume(p.d[0] != OPC_NNRSM);
    a->receive(p); b->receive(p); sameOutput(a, b, why); sameState(a, b, why);
  }
  else
  {
    byte ops[3] = {OPC_RQNP, OPC_RQMN, OPC_QNN}; unsigned nn = a->conf->nodeNum;
    for (byte o : ops) { a->receive(M(o)); b->receive(M(o)); }
    a->receive(M(OPC_REQEV, 0, 1, 0, 2, 1)); b->receive(M(OPC_REQEV, 0, 1, 0, 2, 1));
    a->receive(M(OPC_NNCLR, hi(nn), lo(nn))); b->receive(M(OPC_NNCLR, hi(nn), lo(nn)));
    sameOutput(a, b, why);
  }
  env::now += sx_u32("later"); a->poll(); b->poll(); sameOutput(a, b, why); sameState(a, b, why);
}

// --- C13 ---------------------------------------------------------------------------------------
// messages that are not addressed to a node, or whose node number is that of an event
static const byte notAddressed[] = {
  0x10, 0x11, 0x0D, 0x50, 0x42, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x0B, 0x0C, 0x0E, 0x0F,
  0xD2, 0x95, 0xF5, 0xB2,
  0x90, 0x91, 0x92, 0x93, 0x94, 0xB0, 0xB1, 0xB3, 0xB4, 0xD0, 0xD1, 0xD4, 0xD5, 0xF0, 0xF1, 0xF3, 0xF4,
  0x98, 0x99, 0x9A, 0x9D, 0x9E, 0xB8, 0xB9, 0xBD, 0xBE, 0xD8, 0xD9, 0xDD, 0xDE, 0xF8, 0xF9, 0xFD, 0xFE};
static void foreign(Kind kind, bool probe, bool allModes)
{
  sx_need("learn elsewhere"); sx_need("other");
  int mode = allModes ? someMode() : MODE_NORMAL; bool learn = sx_fork(sx_bool("learn"));
  FullNode *a = new FullNode(NVS, EVENTS, EVS); regularSettings(a->mem, mode == MODE_SETUP ? MODE_NORMAL : mode); if (mode == MODE_UNINITIALISED) a->mem->m[2] = a->mem->m[3] = 0; a->mem->symbolic(10, a->mem->size);
  byte *initial = copy(a->mem->m, a->mem->size);
  prepare(a, kind, mode, learn, initial);
  FullNode *b = twin(a, kind, mode, learn, initial); consumed.n = requested.n = 0;
  Msg m = anyMsg(3); sx_assume(!oneOf(m.d[0], notAddressed, sizeof notAddressed)); sx_assume(addressee(m) != a->nn);
  a->receive(m);
  sx_assert(a->rec->n == 0 && a->bus->nout == 0, "a command for another node is not answered");
  sx_assert(a->rec->enumReq == 0 && a->rec->modes == 0 && consumed.n == 0 && requested.n == 0, "and starts nothing");
  if (m.d[0] == OPC_NNLRN) { sx_cover("learn elsewhere"); b->receive(M(OPC_NNULN, hi(b->nn), lo(b->nn))); } else sx_cover("other");
  indistinguishable(a, b, probe, "a command for another node is not obeyed");
}
CASE(C13_plain) { foreign(PLAIN, false, true); }
CASE(C13_diag) { foreign(DIAG, false, true); }
CASE(C13_mixed) { foreign(MIXED, false, true); }
// @case cost=60
CASE(C13_plain_then_any) { foreign(PLAIN, true, false); }
// @case tier=thorough cost=100
CASE(C13_diag_then_any) { foreign(DIAG, true, true); }
// the node number can be any value; the module's changes during its life
CASE(C13_after_renumbering)
{
  FullNode *n = module(PLAIN, MODE_SETUP, false); unsigned was = n->nn, nn = sx_u16("nn"); sx_assume(nn != was); n->receive(M(OPC_SNN, hi(nn), lo(nn)));
  byte *old = copy(n->mem->m, n->mem->size); n->rec->clear();
  Msg m = anyMsg(3); sx_assume(!oneOf(m.d[0], notAddressed, sizeof notAddressed)); sx_assume(addressee(m) == was);
  n->receive(m); sx_assert(n->rec->n == 0 && equal(old, n->mem->m, n->mem->size), "the previous node number is not listened to any more");
}

// --- C14 ---------------------------------------------------------------------------------------
struct Cmd { byte opc, len; int svc; int where; };   // where: 0 addressed to the node, 1 in setup mode, 2 in learn mode
static const Cmd cmds[] = {
  {OPC_NVRD, 4, SERVICE_ID_NV, 0}, {OPC_NVSET, 5, SERVICE_ID_NV, 0}, {OPC_NVSETRD, 5, SERVICE_ID_NV, 0}, {OPC_RQNPN, 4, SERVICE_ID_MNS, 0}, {OPC_RQSD, 4, SERVICE_ID_MNS, 0},
  {OPC_MODE, 4, SERVICE_ID_MNS, 0}, {OPC_REVAL, 5, SERVICE_ID_OLD_TEACH, 0}, {OPC_NENRD, 4, SERVICE_ID_OLD_TEACH, 0}, {OPC_SNN, 3, SERVICE_ID_MNS, 1}, {OPC_EVLRN, 7, SERVICE_ID_OLD_TEACH, 2},
  {OPC_EVULN, 5, SERVICE_ID_OLD_TEACH, 2}, {OPC_EVLRNI, 8, SERVICE_ID_OLD_TEACH, 2}, {OPC_REQEV, 6, SERVICE_ID_OLD_TEACH, 2}, {OPC_RDGN, 5, SERVICE_ID_MNS, 0}};
static void truncated(int k, Kind kind, bool probe)
{
  const Cmd &c = cmds[k]; sx_need("answered"); if (c.opc != OPC_SNN && c.len > 3) sx_need("other node or mode"); 
  int mode = someMode(); bool learn = sx_fork(sx_bool("learn"));
  FullNode *a = new FullNode(NVS, EVENTS, EVS); regularSettings(a->mem, mode == MODE_SETUP ? MODE_NORMAL : mode); if (mode == MODE_UNINITIALISED) a->mem->m[2] = a->mem->m[3] = 0; a->mem->symbolic(10, a->mem->size);
  byte *initial = copy(a->mem->m, a->mem->size);
  prepare(a, kind, mode, learn, initial); FullNode *b = twin(a, kind, mode, learn, initial);
  Msg m = symMsg(sx_fork(sx_range("len", 1, c.len - 1))); m.d[0] = c.opc; unsigned nn = a->nn;
  a->receive(m);
  bool mine = c.where == 0 ? m.len >= 3 && addressee(m) == nn : c.where == 1 ? mode == MODE_SETUP : learn;
  if (mine) { sx_cover("answered"); sx_assert(only(*a->rec, GRSPM(c.opc, c.svc, CMDERR_INV_CMD)), "a truncated command is answered with one invalid-command response"); }
  else if (m.len >= 3 || c.where) { sx_cover("other node or mode"); sx_assert(a->rec->n == 0, "a truncated command for somebody else is not answered"); }
  indistinguishable(a, b, probe, "a truncated command has no effect");
}
CASE(C14_nvrd) { truncated(0, PLAIN, false); }
CASE(C14_nvset) { truncated(1, PLAIN, false); }
CASE(C14_nvsetrd) { truncated(2, PLAIN, false); }
CASE(C14_rqnpn) { truncated(3, PLAIN, false); }
CASE(C14_rqsd) { truncated(4, PLAIN, false); }
CASE(C14_mode) { truncated(5, PLAIN, false); }
CASE(C14_reval) { truncated(6, PLAIN, false); }
CASE(C14_nenrd) { truncated(7, PLAIN, false); }
CASE(C14_snn) { truncated(8, PLAIN, false); }
CASE(C14_evlrn) { truncated(9, PLAIN, false); }
CASE(C14_evuln) { truncated(10, PLAIN, false); }
CASE(C14_evlrni) { truncated(11, PLAIN, false); }
CASE(C14_reqev) { truncated(12, PLAIN, false); }
CASE(C14_rdgn) { truncated(13, DIAG, false); }
CASE(C14_mode_diag) { truncated(5, DIAG, false); }
CASE(C14_evlrn_mixed) { truncated(9, MIXED, false); }
CASE(C14_rqsd_diag) { truncated(4, DIAG, false); }
// @case tier=thorough cost=100
CASE(C14_mode_then_any) { truncated(5, PLAIN, true); }
// @case tier=thorough cost=100
CASE(C14_evlrni_then_any) { truncated(11, PLAIN, true); }

// The same when the command arrives as a CAN frame after a long one: neither that frame's data nor
// what a transport leaves beyond the frame's length completes the command.
static void onBus(FullNode *n, const CANFrame &f) { n->bus->put(f); n->poll(); }
static void truncatedOnBus(int k, Kind kind)
{
  const Cmd &c = cmds[k]; sx_need("answered"); if (c.opc != OPC_SNN && c.len > 3) sx_need("other node or mode");
  int mode = c.where == 1 ? MODE_SETUP : MODE_NORMAL; bool learn = c.where == 2 || sx_fork(sx_bool("learn")); if (c.where == 2 && sx_fork(sx_bool("not learning"))) learn = false;
  FullNode *a = new FullNode(NVS, EVENTS, EVS); regularSettings(a->mem, MODE_NORMAL); a->mem->m[LOCATION_FLAGS] &= ~1; a->mem->symbolic(10, a->mem->size);
  byte *initial = copy(a->mem->m, a->mem->size);
  prepare(a, kind, mode, learn, initial); FullNode *b = twin(a, kind, mode, learn, initial); unsigned nn = a->nn;
  CANFrame f; f.ext = f.rtr = false; f.id = sx_range("id", 0, 0x7ff); sx_assume((f.id & 0x7f) != a->conf->CANID); f.len = 8; for (int i = 0; i < 8; i++) f.data[i] = sx_u8("data"); f.data[0] = OPC_ARSON3;
  onBus(a, f); onBus(b, f); a->rec->clear(); b->rec->clear();
  Msg m; m.len = sx_fork(sx_range("len", c.len > 3 ? 3 : 1, c.len - 1)); for (int i = 0; i < 8; i++) m.d[i] = sx_u8("d"); m.d[0] = c.opc;
  f.len = m.len; for (int i = 0; i < 8; i++) f.data[i] = m.d[i];
  onBus(a, f); b->poll();
  bool mine = c.where == 0 ? addressee(m) == nn : c.where == 1 ? true : learn;
  if (mine) { sx_cover("answered"); sx_assert(only(*a->rec, GRSPM(c.opc, c.svc, CMDERR_INV_CMD)), "a truncated command is answered with one invalid-command response"); }
  else { sx_cover("other node or mode"); sx_assert(a->rec->n == 0, "a truncated command for somebody else is not answered"); }
  indistinguishable(a, b, false, "a truncated command has no effect");
}
CASE(C14_bus_nvset) { truncatedOnBus(1, PLAIN); }
CASE(C14_bus_nvrd) { truncatedOnBus(0, DIAG); }
CASE(C14_bus_nvsetrd) { truncatedOnBus(2, PLAIN); }
CASE(C14_bus_rqnpn) { truncatedOnBus(3, PLAIN); }
CASE(C14_bus_rqsd) { truncatedOnBus(4, PLAIN); }
CASE(C14_bus_mode) { truncatedOnBus(5, PLAIN); }
CASE(C14_bus_reval) { truncatedOnBus(6, PLAIN); }
CASE(C14_bus_nenrd) { truncatedOnBus(7, PLAIN); }
CASE(C14_bus_snn) { truncatedOnBus(8, PLAIN); }
CASE(C14_bus_evlrn) { truncatedOnBus(9, PLAIN); }
CASE(C14_bus_evuln) { truncatedOnBus(10, PLAIN); }
CASE(C14_bus_evlrni) { truncatedOnBus(11, PLAIN); }
CASE(C14_bus_reqev) { truncatedOnBus(12, PLAIN); }
CASE(C14_bus_rdgn) { truncatedOnBus(13, DIAG); }

// --- C11 ---------------------------------------------------------------------------------------
static void footprint(FullNode *n, const byte *old, const Msg &m, int mode, bool learn, unsigned nn, const byte *now = nullptr)
{
  if (!now) now = n->mem->m;
  bool mine = addressee(m) == nn; unsigned events = n->conf->EE_MAX_EVENTS, ev0 = 10 + n->conf->EE_NUM_NVS, each = 4 + n->conf->EE_NUM_EVS;
  bool nv = (m.d[0] == OPC_NVSET || m.d[0] == OPC_NVSETRD) && mine;
  bool teach = learn && (m.d[0] == OPC_EVLRN || m.d[0] == OPC_EVLRNI || m.d[0] == OPC_EVULN), clear = learn && mine && m.d[0] == OPC_NNCLR;
  bool snn = m.d[0] == OPC_SNN && mode == MODE_SETUP, canid = m.d[0] == OPC_CANID && mine, md = m.d[0] == OPC_MODE && mine, all = m.d[0] == OPC_NNRSM && mine;
  bool ok = true; int entries = 0;
  for (unsigned a = 0; a < ev0; a++)
  {
    bool may = a >= 10 ? nv & (m.d[3] == a - 9) : a == LOCATION_MODE ? snn | md : a == LOCATION_CANID ? canid | md : a == LOCATION_NODE_NUMBER_HIGH || a == LOCATION_NODE_NUMBER_LOW ? snn | md : a == LOCATION_FLAGS ? md : a == LOCATION_RESET_FLAG ? clear : false;
    if (a < 6 || a >= 10) may = may | all;
    ok = ok & (may | (now[a] == old[a]));
  }
  sx_assert(ok, "settings and node variables change only by the commands about them");
  for (unsigned i = 0; i < events; i++) { bool ch = false; for (unsigned b = 0; b < each; b++) ch = ch | (now[ev0 + i * each + b] != old[ev0 + i * each + b]); entries += ch; }
  sx_assert(entries == 0 || all || clear || (teach && entries == 1), "events change only by teaching one, unlearning one or clearing all");
  if (entries) sx_cover("event changed");
  if (nv) sx_cover("variable written"); if (canid) sx_cover("CAN id set"); if (snn) sx_cover("node number set");
}
static void oneMessage(Kind kind)
{
  sx_need("event changed"); sx_need("variable written"); sx_need("CAN id set"); sx_need("node number set");
  int mode = someMode(); bool learn = sx_fork(sx_bool("learn"));
  FullNode *n = module(kind, mode, learn); byte *old = copy(n->mem->m, n->mem->size);
  Msg m = anyMsg(3); n->receive(m); n->poll(); footprint(n, old, m, mode, learn, n->nn);
}
CASE(C11_plain) { oneMessage(PLAIN); }
CASE(C11_diag) { oneMessage(DIAG); }
CASE(C11_mixed) { oneMessage(MIXED); }
// a large module: positions beyond 255 bytes, indices beyond 127
static FullNode *largeModule(unsigned nvs, unsigned events, unsigned evs)
{
  FullNode *n = new FullNode(nvs, events, evs); n->mem->m[0] = MODE_NORMAL; n->mem->m[2] = 3; n->mem->m[3] = 9;
  for (unsigned i = 0; i < nvs; i++) n->mem->m[10 + i] = 200 - i;
  for (unsigned i = 0; i < events; i++) { byte *e = n->mem->m + 10 + nvs + i * (4 + evs); e[0] = 1; e[1] = 2; e[2] = i; e[3] = 7; for (unsigned j = 0; j < evs; j++) e[4 + j] = i ^ j ^ 0x55; }
  return n;
}
static void large(unsigned nvs, unsigned events, unsigned evs, unsigned at)
{
  FullNode *n = largeModule(nvs, events, evs); unsigned each = 4 + evs;
  byte *e = n->mem->m + 10 + nvs + at * each; bool empty = sx_fork(sx_bool("free")); for (unsigned b = 0; b < 4; b++) e[b] = empty ? 255 : sx_u8("entry");
  n->go(PLAIN); n->receive(M(OPC_NNLRN, 3, 9)); n->rec->clear(); byte *old = copy(n->mem->m, n->mem->size);
  Msg m = anyMsg(8); byte ops[5] = {OPC_EVLRN, OPC_EVLRNI, OPC_EVULN, OPC_NVSET, OPC_NVSETRD}; int k = sx_fork(sx_range("op", 0, 4)); m.d[0] = ops[k];
  if (k == 1) { m.d[5] = sx_fork(m.d[5]); sx_assume(m.d[5] == at || m.d[5] == 0 || m.d[5] == 128 || m.d[5] == events - 1); }
  if (k == 0) { sx_assume(m.d[4] != 7); sx_assume(m.d[6] < 3); m.d[5] = sx_fork(m.d[5]); sx_assume(m.d[5] < 3 || m.d[5] + 1u >= evs); if (m.d[5] == 1) m.d[6] = 0; }
  if (k == 2) sx_assume(m.d[4] != 7);
  if (k > 2) { m.d[3] = sx_fork(m.d[3]); sx_assume(m.d[3] < 2 || m.d[3] == 128 || m.d[3] + 1u >= nvs); }
  n->receive(m); n->poll(); footprint(n, old, m, MODE_NORMAL, true, n->nn);
  // the entry concerned is the only one that can have changed
  unsigned which = k == 1 ? m.d[5] : at; bool ok = true;
  if (k < 3) for (unsigned i = 0; i < events; i++) for (unsigned b = 0; b < each; b++) { unsigned a = 10 + nvs + i * each + b; ok = ok & (i == which || n->mem->m[a] == old[a]); }
  sx_assert(ok, "the entry concerned is the only one that changes");
}
// @case cost=30
CASE(C11_large_60x20) { large(40, 60, 20, 33); }
// @case cost=30
CASE(C11_large_255x2) { large(255, 255, 2, 200); }
// messages do not leave something behind that a later message or poll writes
static void afterwards(Kind kind)
{
  sx_need("event changed"); sx_need("variable written");
  bool learn = sx_fork(sx_bool("learn")); FullNode *n = module(kind, MODE_NORMAL, learn);
  Msg m = anyMsg(3); byte keep[4] = {OPC_MODE, OPC_NNRSM, OPC_NNLRN, OPC_NNULN}; sx_assume(!oneOf(m.d[0], keep, 4)); sx_assume(m.d[0] != OPC_ENUM);
  n->receive(m); byte *old = copy(n->mem->m, n->mem->size); env::now += 200; n->poll();
  sx_assert(equal(old, n->mem->m, n->mem->size), "an idle poll writes nothing");
  Msg k = anyMsg(3); n->receive(k); footprint(n, old, k, MODE_NORMAL, learn, n->nn);
}
// @case cost=60
CASE(C11_second_message) { afterwards(PLAIN); }
// bus frames, events sent by the application, actions
CASE(C11_frames)
{
  FullNode *n = module(PLAIN, MODE_NORMAL, false); byte *old = copy(n->mem->m, n->mem->size);
  CANFrame f = symCanFrame(); f.data[0] = 0x90; f.len = sx_fork(f.len); n->bus->put(f); n->poll(); env::now += 150; n->poll();
  for (unsigned a = 0; a < n->mem->size; a++) sx_assert(a == LOCATION_CANID || n->mem->m[a] == old[a], "a bus frame can change the CAN id only");
}
CASE(C11_actions)
{
  int mode = someMode(); FullNode *n = module(PLAIN, mode, false); byte *old = copy(n->mem->m, n->mem->size);
  int op = sx_fork(sx_range("op", 0, 3)); n->ctl->putAction(op == 0 ? ACT_CHANGE_MODE : op == 1 ? ACT_RENEGOTIATE : op == 2 ? ACT_START_CAN_ENUMERATION : ACT_INDICATE_ACTIVITY); n->drain(); env::now += 150; n->poll();
  for (unsigned a = 0; a < n->mem->size; a++)
  {
    bool may = op == 0 ? a < LOCATION_FLAGS : op == 2 ? a == LOCATION_CANID : false;
    sx_assert(may || n->mem->m[a] == old[a], "a mode change touches the identity only, an enumeration the CAN id only");
  }
}

// --- C10 ---------------------------------------------------------------------------------------
static void restartAgrees(FullNode *n)
{
  byte *stored = copy(n->mem->m, n->mem->size);
  FullNode *r = new FullNode(NVS, EVENTS, EVS); memcpy(r->mem->m, stored, n->mem->size); Bus *keep = n->bus; r->go(PLAIN); (void)keep;
  Configuration *a = n->conf, *b = r->conf;
  sx_assert(a->nodeNum == b->nodeNum && a->CANID == b->CANID, "node number and CAN id survive a restart");
  sx_assert(a->currentMode == b->currentMode, "the stored mode survives a restart");
  sx_assert(a->heartbeat == b->heartbeat && a->eventAck == b->eventAck, "heartbeat and acknowledgement settings survive a restart");
  unsigned nn = sx_u16("nn"), en = sx_u16("en");
  sx_assert(a->findExistingEvent(nn, en) == b->findExistingEvent(nn, en), "exactly the events recognised before are recognised after a restart");
  sx_assert(a->numEvents() == b->numEvents() && a->findEventSpace() == b->findEventSpace(), "the same entries are in use");
  sx_assert(equal(stored, r->mem->m, n->mem->size), "restarting changes no stored byte");
}
static void restart(Kind kind, int steps, bool allModes)
{
  int mode = allModes ? someMode() : MODE_NORMAL; bool learn = sx_fork(sx_bool("learn"));
  FullNode *n = module(kind, mode, learn);
  for (int s = 0; s < steps; s++)
  {
    Msg m = anyMsg(); sx_assume(m.d[0] != OPC_NNRSM);      // the factory reset ends in a restart of its own: C12
    if (steps > 1) { byte ops[8] = {OPC_EVLRN, OPC_EVLRNI, OPC_EVULN, OPC_NNCLR, OPC_SNN, OPC_MODE, OPC_CANID, OPC_RQNN}; sx_assume(oneOf(m.d[0], ops, 8)); }
    n->receive(m);
  }
  restartAgrees(n);
}
CASE(C10_plain) { restart(PLAIN, 1, true); }
CASE(C10_diag) { restart(DIAG, 1, true); }
CASE(C10_mixed) { restart(MIXED, 1, true); }
// @case cost=60
CASE(C10_two_commands) { restart(PLAIN, 2, false); }
// @case tier=thorough cost=100
CASE(C10_two_commands_modes) { restart(PLAIN, 2, true); }
CASE(C10_actions)
{
  int mode = someMode(); FullNode *n = module(PLAIN, mode, false);
  for (int s = 0; s < 2; s++) { int op = sx_fork(sx_range("op", 0, 3)); if (op < 3) n->ctl->putAction(op == 0 ? ACT_CHANGE_MODE : op == 1 ? ACT_RENEGOTIATE : ACT_START_CAN_ENUMERATION); else n->receive(M(OPC_SNN, sx_u8("h"), sx_u8("l"))); n->drain(); env::now += 150; n->poll(); }
  restartAgrees(n);
}
// events created by producing
CASE(C10_produced)
{
  FullNode *n = module(PLAIN, MODE_NORMAL, false); sx_assume(n->nn != 0xffff); byte ch = sx_u8("ch"); sx_assume(ch != 0);
  n->prod->sendEvent(true, ch); n->drain(); restartAgrees(n);
}
// default events of a new module
CASE(C10_new_module)
{
  FullNode *n = new FullNode(NVS, EVENTS, EVS); for (unsigned a = 0; a < n->mem->size; a++) n->mem->m[a] = 255; n->conf->EE_PRODUCED_EVENTS = 2; n->go(PLAIN);
  n->ctl->putAction(ACT_CHANGE_MODE); n->drain(); env::now += 150; n->poll(); restartAgrees(n);
  unsigned nn = sx_u16("nn"); sx_assume(nn != 0xffff); n->receive(M(OPC_SNN, hi(nn), lo(nn))); n->poll(); restartAgrees(n);
}

// --- C42 ---------------------------------------------------------------------------------------
// every byte is written only if the message is about it, at no time in between is another one disturbed
static void powerFailure(Kind kind, bool allModes)
{
  sx_need("event changed"); sx_need("variable written"); sx_need("CAN id set"); if (allModes) sx_need("node number set");
  int mode = allModes ? someMode() : MODE_NORMAL; bool learn = sx_fork(sx_bool("learn"));
  FullNode *n = module(kind, mode, learn); byte *old = copy(n->mem->m, n->mem->size);
  Msg m = anyMsg(3); sx_assume(m.d[0] != OPC_NNRSM); n->mem->watch(); n->receive(m); n->poll(); footprint(n, old, m, mode, learn, n->nn, n->mem->worst);
  bool ok = true; for (unsigned a = 0; a < 10 + NVS; a++) ok = ok & !n->mem->many[a] & ((n->mem->worst[a] == old[a]) | (n->mem->worst[a] == n->mem->m[a])); sx_assert(ok, "a setting or node variable has the old or the new value at any time");
}
CASE(C42_plain) { powerFailure(PLAIN, true); }
CASE(C42_mixed) { powerFailure(MIXED, false); }
// @case tier=thorough
CASE(C42_diag) { powerFailure(DIAG, true); }
CASE(C42_actions)
{
  int mode = someMode(); FullNode *n = module(PLAIN, mode, false); byte *old = copy(n->mem->m, n->mem->size); n->mem->watch();
  int op = sx_fork(sx_range("op", 0, 2)); n->ctl->putAction(op == 0 ? ACT_CHANGE_MODE : op == 1 ? ACT_RENEGOTIATE : ACT_START_CAN_ENUMERATION); n->drain(); env::now += 150; n->poll();
  bool ok = true; for (unsigned a = 0; a < n->mem->size; a++) { bool may = op == 0 ? a < LOCATION_FLAGS : op == 2 ? a == LOCATION_CANID : false; byte w = n->mem->worst[a]; ok = ok & !n->mem->many[a] & ((w == old[a]) | (may & (w == n->mem->m[a]))); }
  sx_assert(ok, "requests by the user disturb only the settings they are about");
}
// power fails before one of the writes of a command; the module starts again
static void interrupted(int what)
{
  sx_need("interrupted"); FullNode *n = module(PLAIN, MODE_NORMAL, what < 3); byte *old = copy(n->mem->m, n->mem->size); unsigned nn = n->nn; sx_assume(nn != 0xffff); byte ch = sx_u8("channel"); sx_assume(ch != 0);
  unsigned k = sx_fork(sx_range("at", 0, 9)); n->mem->failAt(k); Msg m = anyMsg(8);
  if (what == 0) m.d[0] = OPC_EVLRN; else if (what == 1) { m.d[0] = OPC_EVLRNI; m.d[5] = sx_fork(m.d[5]); } else if (what == 2) { m.d[0] = OPC_EVULN; m.len = 5; m.d[5] = m.d[6] = m.d[7] = 0; }
  if (what < 3) n->receive(m); else { n->prod->sendEvent(true, ch); n->drain(); }
  if (n->mem->writes <= k) return;
  sx_cover("interrupted"); FullNode *r = new FullNode(NVS, EVENTS, EVS); memcpy(r->mem->m, n->mem->snap, n->mem->size); r->go(PLAIN);
  sx_assert(r->conf->nodeNum == nn && r->conf->CANID == old[LOCATION_CANID] && r->conf->currentMode == MODE_NORMAL, "the module is what it was"); for (unsigned i = 1; i <= NVS; i++) sx_assert(r->conf->readNV(i) == old[9 + i], "its variables are what they were");
  // the entry concerned is the one that is different in the end or would have been
  int other = 0; for (unsigned i = 0; i < EVENTS; i++) { byte *a = r->ev(i), *b = old + r->evAddr(i); bool same = equal(a, b, 4 + EVS); bool concerned = !equal(n->ev(i), b, 4 + EVS); other += !(same | concerned); }
  sx_assert(other == 0, "all other events are what they were");
  // it works: an event that was not concerned is recognised, what is produced is sent once
  for (unsigned i = 0; i < EVENTS; i++)
  {
    byte *b = old + r->evAddr(i); bool mine = equal(n->ev(i), b, 4 + EVS) & ((b[0] & b[1] & b[2] & b[3]) != 255);
    if (sx_fork(mine)) { byte ix = r->conf->findExistingEvent(b[0] * 256u + b[1], b[2] * 256u + b[3]); sx_assert(ix < EVENTS && equal(r->ev(ix), b, 4), "a stored event is recognised"); }
  }
  r->rec->clear(); byte room = r->conf->findEventSpace(); r->prod->sendEvent(false, ch); r->drain(); sx_assert(r->rec->n <= 1, "an event is produced once"); if (room < EVENTS) sx_assert(r->rec->n == 1, "and is produced"); 
  if (r->rec->n) { unsigned e = r->rec->out[0].d[3] * 256u + r->rec->out[0].d[4]; bool l = r->rec->out[0].d[0] == OPC_ACOF; unsigned w = l ? r->rec->out[0].d[1] * 256u + r->rec->out[0].d[2] : 0; byte ix = r->conf->findExistingEvent(w, e); sx_assert(ix < EVENTS, "with a stored identity"); }
}
CASE(C42_teach) { interrupted(0); }
CASE(C42_teach_index) { interrupted(1); }
CASE(C42_unlearn) { interrupted(2); }
CASE(C42_produce) { interrupted(3); }

// --- C17 ---------------------------------------------------------------------------------------
// the reference: number of diagnostics of a service, and one value
static int diagCount(VlcbServiceTypes id) { switch (id) { case SERVICE_ID_MNS: return 6; case SERVICE_ID_CAN: return 18; case SERVICE_ID_CONSUMER: case SERVICE_ID_PRODUCER: case SERVICE_ID_OLD_TEACH: return 1; default: return 0; } }
struct Counters { unsigned renumbered, consumed, produced, taught; };
static unsigned diagValue(FullNode *n, VlcbServiceTypes id, int code, const Counters &c)
{
  unsigned long up = env::now / 1000;
  if (id == SERVICE_ID_MNS) return code == 2 ? (up >> 16) & 0xffff : code == 3 ? up & 0xffff : code == 5 ? c.renumbered : 0;
  if (id == SERVICE_ID_CAN) return code == 1 ? n->bus->rxe : code == 2 ? n->bus->txe : code == 3 ? n->bus->st : code == 6 ? n->bus->tx : code == 9 ? n->bus->rx : 0;
  return id == SERVICE_ID_CONSUMER ? c.consumed : id == SERVICE_ID_PRODUCER ? c.produced : c.taught;
}
#define DGNM(ix, code, v) M(OPC_DGN, hi(nn), lo(nn), ix, code, hi(v), lo(v))
static void invalidDiagnostic(FullNode *n, unsigned nn) { Msg &m = n->rec->out[0]; sx_assert(n->rec->n == 1 && m.len == 6 && m.d[0] == OPC_GRSP && m.d[1] == hi(nn) && m.d[2] == lo(nn) && m.d[3] == OPC_RDGN && m.d[5] == GRSP_INVALID_DIAGNOSTIC, "an unknown diagnostic is answered with the error"); }
static void diagnostic(FullNode *n, byte ix, byte code, const Counters &c)
{
  unsigned nn = n->conf->nodeNum; n->rec->clear();
  n->receive(M(OPC_RDGN, hi(nn), lo(nn), ix, code));
  ix = sx_fork(ix);
  if (ix > n->services || !n->list[ix - 1]->getServiceID()) { sx_cover("no service"); sx_assert(only(*n->rec, GRSPM(OPC_RDGN, SERVICE_ID_MNS, GRSP_INVALID_SERVICE)), "an unknown service is answered with the error"); return; }
  VlcbServiceTypes id = n->list[ix - 1]->getServiceID(); int count = diagCount(id);
  if (code == 0)
  {
    sx_cover("all"); sx_assert(n->rec->n == count + 1, "all diagnostics of the service"); sx_assert(same(n->rec->out[0], DGNM(ix, 0, (unsigned)count)), "the number of diagnostics first");
    for (int i = 1; i <= count; i++) sx_assert(same(n->rec->out[i], DGNM(ix, i, diagValue(n, id, i, c))), "every diagnostic once, in order, with its value");
  }
  else if (code > count) { sx_cover("no diagnostic"); invalidDiagnostic(n, nn); }
  else { sx_cover("one"); code = sx_fork(code); sx_assert(only(*n->rec, DGNM(ix, code, diagValue(n, id, code, c))), "the value of the requested diagnostic"); }
}
static void busCounters(FullNode *n) { n->bus->rx = sx_u32("rx"); n->bus->tx = sx_u32("tx"); n->bus->rxe = sx_u32("rxe"); n->bus->txe = sx_u32("txe"); n->bus->st = sx_u32("st"); }
CASE(C17_request)
{
  sx_need("no service"); sx_need("all"); sx_need("no diagnostic"); sx_need("one");
  FullNode *n = module(DIAG, someMode(), false); busCounters(n); Counters c = {0, 0, 0, 0}; env::now = sx_u32("now"); n->mem->m[4] = 0; n->receive(M(OPC_MODE, hi(n->nn), lo(n->nn), MODE_HEARTBEAT_OFF));
  byte ix = sx_u8("ix"); sx_assume(ix != 0); diagnostic(n, ix, sx_u8("code"), c);
}
CASE(C17_other_node) { FullNode *n = module(DIAG, MODE_NORMAL, false); Msg m = symMsg(5); m.d[0] = OPC_RDGN; sx_assume(addressee(m) != n->nn); n->receive(m); sx_assert(n->rec->n == 0, "not for this node"); }
// without diagnostics support: nothing is answered
CASE(C17_not_supported) { FullNode *n = module(PLAIN, MODE_NORMAL, false); Msg m = symMsg(5); m.d[0] = OPC_RDGN; n->receive(m); sx_assert(n->rec->n == 0, "a module without diagnostics does not answer"); }
// any history of countable things
static void countHistory(int steps)
{
  FullNode *n = module(DIAG, MODE_NORMAL, true); sx_assume(n->nn != 0xffff); busCounters(n); Counters c = {0, 0, 0, 0}; env::now = 0; n->mem->m[4] = 0; n->receive(M(OPC_MODE, hi(n->nn), lo(n->nn), MODE_HEARTBEAT_OFF));
  for (int s = 0; s < steps; s++)
  {
    n->rec->clear(); unsigned nn = n->conf->nodeNum; int before = consumed.n;
    switch (sx_fork(sx_range("op", 0, 4)))
    {
      case 0: { static const byte on[5] = {OPC_ACON, OPC_ASOF1, OPC_ACON3, OPC_ASON2, OPC_AROF}, length[5] = {5, 6, 8, 7, 5}; int k = sx_fork(sx_range("event", 0, 4)); Msg m = symMsg(length[k]); m.d[0] = on[k]; n->receive(m); c.consumed += consumed.n - before; break; }
      case 1: { byte ch = sx_u8("ch"); sx_assume(ch); int k = sx_fork(sx_range("data", 0, 3)); if (k == 0) n->prod->sendEvent(true, ch); else if (k == 1) n->prod->sendEvent(true, ch, 1); else if (k == 2) n->prod->sendEvent(true, ch, 1, 2); else n->prod->sendEvent(false, ch, 1, 2, 3); n->drain(); c.produced += n->rec->n; break; }
      case 2: n->receive(M(OPC_EVLRN, sx_u8("h"), sx_u8("l"), sx_u8("eh"), 5, sx_u8("ev"), sx_u8("val"))); c.taught += n->rec->count(WRACKM); break;
      case 3: n->receive(M(OPC_EVLRNI, sx_u8("h"), sx_u8("l"), sx_u8("eh"), 5, sx_u8("ix"), sx_u8("ev"), sx_u8("val"))); c.taught += n->rec->count(WRACKM); break;
      case 4: n->ctl->putAction(ACT_RENEGOTIATE); n->drain(); n->receive(M(OPC_SNN, 1, s)); c.renumbered++; break;
    }
  }
  byte ix[4] = {1, 5, 6, 7}, code[4] = {5, 1, 1, 1}; for (int i = 0; i < 4; i++) diagnostic(n, ix[i], code[i], c);
}
CASE(C17_counters_2) { countHistory(2); }
// @case tier=thorough cost=100
CASE(C17_counters_3) { countHistory(3); }
// counters beyond one byte
CASE(C17_counters_wide)
{
  FullNode *n = new FullNode(NVS, EVENTS, EVS); n->mem->m[0] = MODE_NORMAL; n->mem->m[2] = 1; n->mem->m[3] = 4; for (unsigned a = 12; a < n->mem->size; a++) n->mem->m[a] = a; n->go(DIAG); unsigned nn = n->nn;
  Counters c = {0, 0, 0, 0}; byte *e = n->ev(0); n->receive(M(OPC_NNLRN, 1, 4));
  for (int i = 0; i < 300; i++) { n->rec->clear(); n->bus->nout = 0; n->receive(M(OPC_ACON, e[0], e[1], e[2], e[3])); c.consumed++; n->prod->sendEvent(true, e[4]); n->drain(); c.produced++; n->receive(M(OPC_EVLRNI, e[0], e[1], e[2], e[3], 0, 2, i)); c.taught++; }
  for (int i = 0; i < 260; i++) { n->ctl->putAction(ACT_RENEGOTIATE); n->drain(); n->rec->clear(); n->bus->nout = 0; n->receive(M(OPC_SNN, 1, 4)); c.renumbered++; }
  byte ix[4] = {1, 5, 6, 7}, code[4] = {5, 1, 1, 1}; for (int i = 0; i < 4; i++) diagnostic(n, ix[i], code[i], c); (void)nn;
}
// all services at once, in a module whose answer fits the message queue
struct Small : Node { Small() : Node(10 + NVS + EVENTS * (4 + EVS)) { geometry(NVS, EVENTS, EVS); } };
CASE(C17_all_services)
{
  Small *n = new Small(); regularSettings(n->mem, MODE_NORMAL); n->start(MAKE(Controller, n->conf, {MAKE(MinimumNodeServiceWithDiagnostics), MAKE(Hidden), MAKE(NodeVariableService), MAKE(EventConsumerServiceWithDiagnostics), MAKE(EventProducerServiceWithDiagnostics), MAKE(EventTeachingServiceWithDiagnostics), n->rec}));
  unsigned nn = n->conf->nodeNum; byte code = sx_u8("code"); n->receive(M(OPC_RDGN, hi(nn), lo(nn), 0, code));
  int ix[5] = {1, 3, 4, 5, 6}, count[5] = {6, 0, 1, 1, 1}, k = 0; sx_assert(n->rec->n == 14, "every service reports all its diagnostics");
  for (int s = 0; s < 5; s++) for (int i = 0; i <= count[s]; i++) { Msg &m = n->rec->out[k++]; sx_assert(m.len == 7 && m.d[0] == OPC_DGN && m.d[1] == hi(nn) && m.d[2] == lo(nn) && m.d[3] == ix[s] && m.d[4] == i && (i || (m.d[5] == 0 && m.d[6] == count[s])), "in service order, the number of diagnostics first"); }
}
CASE(C17_all_services_can)
{
  FullNode *n = module(DIAG, MODE_NORMAL, false); unsigned nn = n->nn; n->receive(M(OPC_RDGN, hi(nn), lo(nn), 0, 0));
  // whatever is answered is, in order, the end of the complete answer
  byte want[40][3]; int k = 0; for (unsigned s = 1; s <= n->services; s++) { VlcbServiceTypes id = n->list[s - 1]->getServiceID(); if (!id) continue; int count = diagCount(id); for (int i = 0; i <= count; i++) { want[k][0] = s; want[k][1] = i; want[k][2] = count; k++; } }
  sx_assert(k == 33 && n->rec->n >= 30 && n->rec->n <= k, "at least as many messages as can be queued"); for (int i = 0; i < n->rec->n; i++) { Msg &m = n->rec->out[i]; byte *w = want[k - n->rec->n + i]; sx_assert(m.len == 7 && m.d[0] == OPC_DGN && m.d[1] == hi(nn) && m.d[2] == lo(nn) && m.d[3] == w[0] && m.d[4] == w[1] && (w[1] || (m.d[5] == 0 && m.d[6] == w[2])), "in service order, the number of diagnostics first"); }
  sx_assert(n->rec->n == 33, "every service reports all its diagnostics");
}

// --- C36 ---------------------------------------------------------------------------------------
static const byte eventOps[] = {0x90, 0x91, 0x92, 0x93, 0x94, 0xB0, 0xB1, 0xB3, 0xB4, 0xD0, 0xD1, 0xD4, 0xD5, 0xF0, 0xF1, 0xF3, 0xF4, 0x98, 0x99, 0x9A, 0x9D, 0x9E, 0xB8, 0xB9, 0xBD, 0xBE, 0xD8, 0xD9, 0xDD, 0xDE, 0xF8, 0xF9, 0xFD, 0xFE};
static const byte noNodeNumber[] = {OPC_PARAMS, OPC_NAME, OPC_EVANS};
// what was sent since the recorder was cleared; the module had node number `was` before
static void wellFormed(FullNode *n, unsigned was)
{
  unsigned is = n->conf->nodeNum; bool len = true, node = true;
  for (int i = 0; i < n->rec->n; i++)
  {
    Msg &m = n->rec->out[i]; len = len & (m.len == (m.d[0] >> 5) + 1u);
    bool named = oneOf(m.d[0], eventOps, sizeof eventOps) | oneOf(m.d[0], noNodeNumber, sizeof noNodeNumber) | ((m.d[0] >> 5) < 2); node = node & (named | (addressee(m) == was) | (addressee(m) == is));
  }
  sx_assert(len, "every message has the length its op-code announces"); sx_assert(node, "every message about this node carries its node number");
  if (n->rec->n) sx_cover("sent");
  // the same messages leave as frames
  int k = 0; bool frames = true;
  for (int i = 0; i < n->bus->nout; i++) { CANFrame &f = n->bus->out[i]; if (f.len == 0) continue; sx_assert(k < n->rec->n, "no other messages leave the module"); Msg &m = n->rec->out[k++]; frames = frames & (f.len == m.len) & !f.ext & !f.rtr; for (int j = 0; j < 8; j++) frames = frames & (j >= m.len || f.data[j] == m.d[j]); }
  sx_assert(k == n->rec->n && frames, "each message leaves as one frame");
}
static void answers(Kind kind)
{
  sx_need("sent"); int mode = someMode(); bool learn = sx_fork(sx_bool("learn")); FullNode *n = module(kind, mode, learn); n->mem->m[4] &= 2; n->conf->setHeartbeat(false); n->rec->clear();
  Msg m = anyMsg(0); n->receive(m); wellFormed(n, n->nn);
}
CASE(C36_message_plain) { answers(PLAIN); }
CASE(C36_message_diag) { answers(DIAG); }
CASE(C36_message_mixed) { answers(MIXED); }
CASE(C36_actions)
{
  sx_need("sent"); int mode = someMode(); FullNode *n = module(PLAIN, mode, false); unsigned was = n->nn; int op = sx_fork(sx_range("op", 0, 2));
  n->ctl->putAction(op == 0 ? ACT_CHANGE_MODE : op == 1 ? ACT_RENEGOTIATE : ACT_START_CAN_ENUMERATION); n->drain(); env::now += sx_u32("dt"); n->poll(); wellFormed(n, was);
}
CASE(C36_produced)
{
  sx_need("sent"); FullNode *n = module(PLAIN, MODE_NORMAL, false); sx_assume(n->nn != 0xffff); byte ch = sx_u8("ch"), a = sx_u8("a"), b = sx_u8("b"), c = sx_u8("c"); sx_assume(ch != 0); bool st = sx_fork(sx_bool("state"));
  switch (sx_fork(sx_range("data", 0, 3))) { case 0: n->prod->sendEvent(st, ch); break; case 1: n->prod->sendEvent(st, ch, a); break; case 2: n->prod->sendEvent(st, ch, a, b); break; default: n->prod->sendEvent(st, ch, a, b, c); }
  n->drain(); wellFormed(n, n->nn); sx_assert(n->rec->n <= 1, "one event, one message"); if (n->rec->n) sx_assert(oneOf(n->rec->out[0].d[0], eventOps, sizeof eventOps), "and it is an event");
}
CASE(C36_responses)
{
  sx_need("sent"); FullNode *n = module(PLAIN, MODE_NORMAL, false); byte a = sx_u8("a"), b = sx_u8("b"), c = sx_u8("c"), ix = sx_fork(sx_range("entry", 0, EVENTS - 1)); bool st = sx_fork(sx_bool("state"));
  switch (sx_fork(sx_range("data", 0, 3))) { case 0: n->prod->sendEventResponse(st, ix); break; case 1: n->prod->sendEventResponse(st, ix, a); break; case 2: n->prod->sendEventResponse(st, ix, a, b); break; default: n->prod->sendEventResponse(st, ix, a, b, c); }
  n->drain(); wellFormed(n, n->nn);
}
// idle for any time: nothing but heartbeats
CASE(C36_idle)
{
  sx_need("sent"); FullNode *n = module(PLAIN, someMode(), sx_fork(sx_bool("learn")));
  for (int i = 0; i < 2; i++) { env::now += sx_u32("dt"); n->poll(); }
  wellFormed(n, n->nn); for (int i = 0; i < n->rec->n; i++) sx_assert(n->rec->out[i].d[0] == OPC_HEARTB, "an idle module sends heartbeats only");
}

// --- C37 ---------------------------------------------------------------------------------------
static const byte always[] = {OPC_RQNP, OPC_RQNPN, OPC_SNN, OPC_RQNN, OPC_QNN, OPC_RQMN, OPC_RQSD, OPC_MODE, OPC_NNRSM, OPC_NNRST, OPC_CANID, OPC_ENUM,
  OPC_NNLRN, OPC_EVULN, OPC_NNULN, OPC_RQEVN, OPC_NERD, OPC_NENRD, OPC_REVAL, OPC_NNCLR, OPC_NNEVN, OPC_EVLRN, OPC_EVLRNI, OPC_REQEV};
static const byte nvOps[] = {OPC_NVRD, OPC_NVSET, OPC_NVSETRD};
static void noCommand(Kind kind, bool probe)
{
  sx_need("response"); int mode = someMode(); bool learn = sx_fork(sx_bool("learn"));
  FullNode *a = new FullNode(NVS, EVENTS, EVS); regularSettings(a->mem, mode == MODE_SETUP ? MODE_NORMAL : mode); if (mode == MODE_UNINITIALISED) a->mem->m[2] = a->mem->m[3] = 0; a->mem->symbolic(10, a->mem->size);
  byte *initial = copy(a->mem->m, a->mem->size); prepare(a, kind, mode, learn, initial); FullNode *b = twin(a, kind, mode, learn, initial); consumed.n = requested.n = 0;
  Msg m = anyMsg(0); sx_assume(!oneOf(m.d[0], always, sizeof always)); sx_assume(!oneOf(m.d[0], eventOps, sizeof eventOps)); if (kind != MIXED) sx_assume(!oneOf(m.d[0], nvOps, sizeof nvOps)); if (kind == DIAG) sx_assume(m.d[0] != OPC_RDGN);
  a->receive(m); if (m.d[0] == OPC_GRSP) sx_cover("response");
  sx_assert(a->rec->n == 0 && a->bus->nout == 0, "a message that is no command for an installed service is not answered");
  sx_assert(a->rec->enumReq == 0 && a->rec->modes == 0 && consumed.n == 0 && requested.n == 0, "and starts nothing");
  indistinguishable(a, b, probe, "a message that is no command for an installed service is not obeyed");
}
CASE(C37_plain) { noCommand(PLAIN, false); }
CASE(C37_diag) { noCommand(DIAG, false); }
CASE(C37_mixed) { noCommand(MIXED, false); }
// @case tier=thorough cost=100
CASE(C37_plain_then_any) { noCommand(PLAIN, true); }
// a module of the minimum node service only
CASE(C37_minimum)
{
  sx_need("command of a missing service"); Node *n = new Node(64); n->geometry(2, 2, 2); regularSettings(n->mem, sx_fork(sx_bool("normal")) ? MODE_NORMAL : MODE_UNINITIALISED); n->mem->m[4] &= 2; n->mem->symbolic(10, 64); n->start(MAKE(Controller, n->conf, {MAKE(MinimumNodeService), n->rec}));
  byte *old = copy(n->mem->m, 64), *par = copy(n->params, 21); Msg m = anyMsg(0); sx_assume(!oneOf(m.d[0], always, 10)); if (m.d[0] == OPC_EVLRN) sx_cover("command of a missing service"); n->receive(m); env::now += sx_u32("dt"); n->poll();
  sx_assert(n->rec->n == 0 && equal(old, n->mem->m, 64) && equal(par, n->params, 21), "commands of missing services are ignored");
}
