// The same module on a scripted bus, on a serial port and on a CAN controller: C41.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source MinimumNodeServiceWithDiagnostics.cpp
// @source CanService.cpp
// @source CanServiceWithDiagnostics.cpp
// @source NodeVariableService.cpp
// @source EventTeachingService.cpp
// @source EventConsumerService.cpp
// @source EventProducerService.cpp
// @source GridConnect.cpp
// @source SerialGC.cpp
// @source CAN2515.cpp
#include "node.h"
#include <SPI.h>
#include <Streaming.h>
#include "MinimumNodeServiceWithDiagnostics.h"
#include "CanServiceWithDiagnostics.h"
#include "NodeVariableService.h"
#include "EventTeachingService.h"
#include "EventConsumerService.h"
#include "EventProducerService.h"
#include "SerialGC.h"
#include "CAN2515.h"
#include "bus.h"
#include "gctext.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

// the chip accepts everything it is given
namespace chip { CANMessage rx[8]; int nrx, rxPos; CANMessage tx[80]; int ntx; }
ACAN2515Settings::ACAN2515Settings(unsigned long, unsigned int) {}
ACAN2515::ACAN2515(uint8_t, SPIClass &, uint8_t) {}
unsigned short ACAN2515::begin(const ACAN2515Settings &, void (*)()) { return 0; }
void ACAN2515::isr() {}
void ACAN2515::poll() {}
bool ACAN2515::available() { return chip::rxPos < chip::nrx; }
void ACAN2515::receive(CANMessage &m) { sx_assert(chip::rxPos < chip::nrx, "only waiting frames are fetched"); m = chip::rx[chip::rxPos++]; }
bool ACAN2515::tryToSend(const CANMessage &m) { sx_assert(chip::ntx < 80, "too many frames sent"); chip::tx[chip::ntx++] = m; return true; }
void ACAN2515::end() {}
uint8_t ACAN2515::receiveErrorCounter() { return 0; }
uint8_t ACAN2515::transmitErrorCounter() { return 0; }
uint8_t ACAN2515::errorFlagRegister() { return 0; }

enum { NVS = 2, EVENTS = 2, EVS = 1 };
enum Via { BUS, SERIAL_PORT, CHIP };
struct Calls { int n; byte index[4]; Msg m[4]; void add(byte ix, const VlcbMessage *v) { if (n < 4) { index[n] = ix; m[n].len = v->len; for (int i = 0; i < 8; i++) m[n].d[i] = i < v->len ? v->data[i] : 0; } n++; } };
static Calls *calls;
static void onEvent(byte ix, const VlcbMessage *v) { calls->add(ix, v); }
struct Module : Node
{
  Via via; Bus *bus; CanTransport *t; EventProducerService *prod; Calls handled; unsigned nn; CanService *can;
  Module(Via v, const byte *storage) : Node(10 + NVS + EVENTS * (4 + EVS))
  {
    via = v; geometry(NVS, EVENTS, EVS); memcpy(mem->m, storage, mem->size); handled.n = 0;
    bus = MAKE(Bus); if (v == BUS) t = bus; else if (v == SERIAL_PORT) { SerialGC *s = MAKE(SerialGC, Serial); s->begin(); t = s; } else { CAN2515 *c = MAKE(CAN2515); c->begin(); t = c; }
    env::serialOutLen = 0; chip::ntx = chip::nrx = chip::rxPos = 0;
    can = MAKE(CanServiceWithDiagnostics, t); EventConsumerService *cons = MAKE(EventConsumerService); prod = MAKE(EventProducerService); cons->setEventHandler(onEvent); calls = &handled;
    start(MAKE(Controller, conf, {can, MAKE(MinimumNodeServiceWithDiagnostics), MAKE(NodeVariableService), MAKE(EventTeachingService), cons, prod, rec})); nn = conf->nodeNum;
  }
  // frames arrive; as many polls as there are frames or characters
  void arrive(const CANFrame *f, int n, const char *before = "", bool lower = false)
  {
    calls = &handled; unsigned long long t0 = env::now; int polls = n;
    if (via == BUS) for (int i = 0; i < n; i++) bus->put(f[i]);
    else if (via == CHIP) { chip::nrx = chip::rxPos = 0; for (int i = 0; i < n; i++) { CANMessage &m = chip::rx[chip::nrx++]; m.id = f[i].id; m.ext = f[i].ext; m.rtr = f[i].rtr; m.len = f[i].len; for (int k = 0; k < 8; k++) m.data[k] = f[i].data[k]; } }
    else
    {
      env::serialInPos = env::serialInLen = 0; while (*before) env::serialIn[env::serialInLen++] = *before++;
      for (int i = 0; i < n; i++) { char *s = env::serialIn + env::serialInLen; int l = refText(f[i], s); if (lower) for (int k = 0; k < l; k++) s[k] = ((s[k] >= 'A') & (s[k] <= 'Z')) ? s[k] + 32 : s[k]; env::serialInLen += l; }
      polls = env::serialInLen;
    }
    for (int i = 0; i < polls; i++) { ctl->process(); env::now = t0; }
    sx_assert(via == BUS ? !bus->available() : via == CHIP ? chip::rxPos == chip::nrx : env::serialInPos == env::serialInLen, "everything received is taken in"); settle(t0);
  }
  void settle(unsigned long long t0) { for (int i = 0; i < 60 && ctl->pendingAction(); i++) { ctl->process(); env::now = t0; } sx_assert(!ctl->pendingAction(), "comes to rest"); ctl->process(); env::now = t0; for (int i = 0; i < 60 && ctl->pendingAction(); i++) { ctl->process(); env::now = t0; } }
  int sent() { return via == BUS ? bus->nout : chip::ntx; }
};
static Module *a, *b;
static void pair(Via v, int mode)
{
  Module *p; byte s[10 + NVS + EVENTS * (4 + EVS)]; for (unsigned i = 0; i < sizeof s; i++) s[i] = sx_u8("storage"); s[0] = mode; s[4] &= 2; env::now = sx_u64("clock");
  a = new Module(BUS, s); p = new Module(v, s); b = p; sx_assert(b->sent() == 0 && env::serialOutLen == 0 && a->sent() == 0, "nothing is sent at the start");
}
// the same frames were sent, the same is stored, the same handlers ran
static void alike(const char *why)
{
  bool ok = a->handled.n == b->handled.n; for (int i = 0; i < a->handled.n && i < 4 && ok; i++) { ok = (a->handled.index[i] == b->handled.index[i]) & (a->handled.m[i].len == b->handled.m[i].len); for (int k = 0; k < 8; k++) ok = ok & (a->handled.m[i].d[k] == b->handled.m[i].d[k]); } sx_assert(ok, "event handlers run for the same messages");
  ok = true; for (unsigned i = 0; i < a->mem->size; i++) ok = ok & (a->mem->m[i] == b->mem->m[i]); sx_assert(ok, "the same is stored"); (void)why;
  if (b->via == CHIP)
  {
    sx_assert(a->bus->nout == chip::ntx, "as many frames are sent"); ok = true;
    for (int i = 0; i < chip::ntx; i++) { CANFrame &f = a->bus->out[i]; CANMessage &m = chip::tx[i]; ok = ok & (f.id == m.id) & (f.ext == m.ext) & (f.rtr == m.rtr) & (f.len == m.len); for (int k = 0; k < 8; k++) ok = ok & ((k >= f.len) | (f.data[k] == m.data[k])); } sx_assert(ok, "the same frames are sent");
  }
  else
  {
    char w[1100]; int n = 0; for (int i = 0; i < a->bus->nout; i++) n += refText(a->bus->out[i], w + n);
    sx_assert(n == env::serialOutLen, "texts for as many frames are sent"); ok = true; for (int i = 0; i < n && i < env::serialOutLen; i++) ok = ok & (w[i] == env::serialOut[i]); sx_assert(ok, "the texts of the same frames are sent");
  }
}
static bool oneOf(byte v, const byte *l, int n) { bool r = false; for (int i = 0; i < n; i++) r = r | (v == l[i]); return r; }
// one op-code of each service and some unknown ones
static const byte ops[] = {OPC_QNN, OPC_RQNPN, OPC_MODE, OPC_NVRD, OPC_NVSET, OPC_NVSETRD, OPC_NERD, OPC_EVLRN, OPC_ACON, OPC_ASOF3, OPC_AREQ, OPC_CANID, OPC_SNN, OPC_RQSD, OPC_NNLRN, 0x3f, 0xff};
static CANFrame standard(byte op, int len) { CANFrame f; f.ext = f.rtr = false; f.id = sx_range("id", 0, 0x7ff); f.len = len; for (int i = 0; i < 8; i++) f.data[i] = sx_u8("data"); f.data[0] = op; return f; }
static byte someOp() { return ops[sx_fork(sx_range("op", 0, sizeof ops - 1))]; }
// one standard frame with a message
static void oneMessage(Via v, bool lower)
{
  sx_need("answered"); sx_need("event"); pair(v, MODE_NORMAL); CANFrame f = standard(someOp(), 8); a->arrive(&f, 1); b->arrive(&f, 1, "", lower); alike("message");
  if (a->bus->nout) sx_cover("answered"); if (a->handled.n) sx_cover("event");
}
CASE(C41_serial_message) { oneMessage(SERIAL_PORT, false); }
CASE(C41_serial_lower_case) { oneMessage(SERIAL_PORT, true); }
CASE(C41_chip_message) { oneMessage(CHIP, false); }
// any frame: remote, extended, short, with the module's own CAN id; an enumeration it leads to
static void anyFrame(Via v)
{
  sx_need("standard"); sx_need("remote"); sx_need("extended"); pair(v, MODE_NORMAL); CANFrame f; f.ext = sx_fork(sx_bool("ext")); f.rtr = sx_fork(sx_bool("rtr")); f.id = sx_u32("id"); sx_assume(f.id <= (f.ext ? 0x1FFFFFFFu : 0x7FFu)); f.len = sx_fork(sx_range("len", 0, 8)); for (int i = 0; i < 8; i++) f.data[i] = sx_u8("data");
  if (f.len) f.data[0] = OPC_ACON; a->arrive(&f, 1); b->arrive(&f, 1); sx_cover(f.ext ? "extended" : f.rtr ? "remote" : "standard"); alike("frame");
  env::now += 100; calls = &a->handled; a->settle(env::now); calls = &b->handled; b->settle(env::now); alike("afterwards");
}
CASE(C41_serial_any_frame) { anyFrame(SERIAL_PORT); }
CASE(C41_chip_any_frame) { anyFrame(CHIP); }
// several frames waiting
static void burst(Via v, int n)
{
  sx_need("answered"); pair(v, MODE_NORMAL); CANFrame f[4]; static const byte few[] = {OPC_NVSET, OPC_NVRD, OPC_ACON}; for (int i = 0; i < n; i++) { f[i] = standard(few[sx_fork(sx_range("op", 0, 2))], 5); sx_assume((f[i].id & 127) != a->conf->CANID); }
  a->arrive(f, n); b->arrive(f, n); alike("burst"); if (a->bus->nout) sx_cover("answered");
}
CASE(C41_serial_burst) { burst(SERIAL_PORT, 2); }
CASE(C41_chip_burst) { burst(CHIP, 3); }
// @case tier=thorough cost=60
CASE(C41_serial_burst_3) { burst(SERIAL_PORT, 3); }
// an enumeration: answers of other modules arrive as empty frames
static void enumeration(Via v)
{
  pair(v, MODE_NORMAL); Module *u[2] = {a, b}; CANFrame e; e.ext = e.rtr = false; e.len = 0; byte id[2] = {(byte)sx_range("answer", 1, 127), (byte)sx_range("answer", 1, 127)}; unsigned long long t = env::now;
  for (int k = 0; k < 2; k++)
  {
    env::now = t; calls = &u[k]->handled; u[k]->ctl->putAction(Action{ACT_START_CAN_ENUMERATION}); u[k]->settle(env::now); for (int i = 0; i < 2; i++) { e.id = 0x580 | id[i]; u[k]->arrive(&e, 1); } env::now += 100; u[k]->settle(env::now);
  }
  alike("enumeration"); sx_assert(b->conf->CANID != id[0] && b->conf->CANID != id[1] && b->conf->CANID, "an id nobody else has");
}
CASE(C41_serial_enumeration) { enumeration(SERIAL_PORT); }
CASE(C41_chip_enumeration) { enumeration(CHIP); }
// answers of other modules and their messages wait together
static void enumerationTraffic(Via v, int n)
{
  pair(v, MODE_NORMAL); sx_need("answer before message"); Module *u[2] = {a, b}; CANFrame f[3]; sx_assume(a->conf->CANID < 128); unsigned long long t = env::now; byte own = a->conf->CANID; bool avoid[128]; for (int q = 0; q < 128; q++) avoid[q] = false;
  for (int i = 0; i < n; i++)
  {
    bool answer = sx_fork(sx_bool("answer")); f[i].ext = f[i].rtr = false; byte id = sx_range("id", 1, 127); sx_assume(id != own); f[i].id = 0x580 | id; f[i].len = answer ? 0 : 5; for (int k = 0; k < 8; k++) f[i].data[k] = sx_u8("data"); f[i].data[0] = OPC_ACON;
    if (answer) for (int q = 1; q < 128; q++) avoid[q] = avoid[q] | (q == id); else if (i && !f[i - 1].len) sx_cover("answer before message");
  }
  for (int k = 0; k < 2; k++) { env::now = t; calls = &u[k]->handled; u[k]->ctl->putAction(Action{ACT_START_CAN_ENUMERATION}); u[k]->settle(env::now); u[k]->arrive(f, n); env::now += 100; u[k]->settle(env::now); }
  alike("enumeration"); int want = 0; for (int q = 127; q; q--) want = avoid[q] ? want : q; sx_assert(b->conf->CANID == want, "the lowest id nobody else has");
}
CASE(C41_serial_enumeration_traffic) { enumerationTraffic(SERIAL_PORT, 2); }
CASE(C41_chip_enumeration_traffic) { enumerationTraffic(CHIP, 3); }
// @case tier=thorough cost=60
CASE(C41_serial_enumeration_traffic_3) { enumerationTraffic(SERIAL_PORT, 3); }
// what the application sends
static void sending(Via v)
{
  pair(v, MODE_NORMAL); sx_assume(a->nn != 0xffff); byte ch = sx_u8("channel"), d = sx_u8("d"); sx_assume(ch != 0); bool on = sx_bool("on"); Module *u[2] = {a, b}; unsigned long long t = env::now;
  for (int k = 0; k < 2; k++) { u[k]->prod->sendEvent(on, ch, d, d); u[k]->prod->sendEvent(!on, ch); u[k]->ctl->sendWRACK(); u[k]->settle(t); }
  alike("sent");
}
CASE(C41_serial_sending) { sending(SERIAL_PORT); }
CASE(C41_chip_sending) { sending(CHIP); }
// serial only: characters that are no frame, a frame that is not well-formed, before a good one
static void noise(const char *text) { sx_need("answered"); pair(SERIAL_PORT, MODE_NORMAL); static const byte few[] = {OPC_NVSET, OPC_NVRD, OPC_ACON}; CANFrame f = standard(few[sx_fork(sx_range("op", 0, 2))], 5); a->arrive(&f, 1); b->arrive(&f, 1, text); alike("noise"); if (a->bus->nout) sx_cover("answered"); }
CASE(C41_serial_after_noise) { static const char *t[] = {"\r\n", "SN;;", ":SB", ":", ":SBTTTN90;", ":S0000N9;", ":SB780N900102030405060708AABBCCDDEEFF0011", ":X;:;"}; noise(t[sx_fork(sx_range("text", 0, 7))]); }
CASE(C41_serial_after_any) { char t[4]; for (int i = 0; i < 3; i++) { t[i] = (char)sx_u8("noise"); sx_assume(t[i] != 0); } t[3] = 0; noise(t); }
// the counters a module reports are those of its transport
static void counters(Via v)
{
  pair(v, MODE_NORMAL); unsigned nn = b->nn; int n = sx_fork(sx_range("frames", 0, 2)); CANFrame f[4]; sx_assume(b->conf->CANID != 0x31);
  for (int i = 0; i <= n; i++) { f[i].ext = f[i].rtr = false; f[i].id = 0x5b1; f[i].len = i < n ? 4 : 5; f[i].data[0] = OPC_NVRD; f[i].data[1] = hi(nn); f[i].data[2] = lo(nn); f[i].data[3] = 1; } byte code = sx_fork(sx_bool("sent")) ? 6 : 9; f[n].data[0] = OPC_RDGN; f[n].data[3] = 1; f[n].data[4] = code;
  for (int i = 0; i <= n; i++) b->arrive(f + i, 1); sx_assert(b->rec->n == n + 1 && same(b->rec->out[n], M(OPC_DGN, hi(nn), lo(nn), 1, code, 0, code == 6 ? n : n + 1)), "the diagnostics tell the frames sent and received");
}
CASE(C41_serial_counters) { counters(SERIAL_PORT); }
CASE(C41_chip_counters) { counters(CHIP); }
