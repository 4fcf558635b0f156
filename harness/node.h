// A VLCB node assembled from the real services, with a storage and a CAN
// transport the harness can inspect.
#pragma once
#include <Arduino.h>
#include <stdlib.h>
#include <string.h>
#include "arduino.h"
#include "Storage.h"
#include "CanTransport.h"
#include "Configuration.h"
#include "Controller.h"
#include "Parameters.h"
#include "Service.h"
#include "vlcbdefs.hpp"
inline void *operator new(size_t, void *p) noexcept;
#include <new>
using namespace VLCB;

// zero-initialised object, as the global objects of a sketch are
#define MAKE(T, ...) (new (calloc(1, sizeof(T))) T(__VA_ARGS__))

struct Mem : Storage
{
  byte *m; unsigned size; unsigned writes, resets, begins;
  // what a power failure may leave behind: the last value written to each byte that differs from what it was, and the contents before one of the writes
  byte *base = nullptr, *worst = nullptr, *snap = nullptr; bool *many = nullptr; unsigned snapAt = 0;   // many: more than one other value was written
  void watch() { base = (byte *)malloc(size); worst = (byte *)malloc(size); many = (bool *)calloc(size, 1); memcpy(base, m, size); memcpy(worst, m, size); writes = 0; }
  void failAt(unsigned k) { snap = (byte *)malloc(size); memcpy(snap, m, size); snapAt = k; writes = 0; }
  explicit Mem(unsigned n) { size = n; m = (byte *)calloc(1, n); writes = resets = begins = 0; }
  void begin() { ++begins; }
  byte read(unsigned a) { sx_assert(a < size, "storage is read inside the reserved area only"); return m[a]; }
  void write(unsigned a, byte v) { sx_assert(a < size, "storage is written inside the reserved area only"); if (snap && writes <= snapAt) memcpy(snap, m, size); ++writes; if (base) { many[a] = many[a] | ((v != base[a]) & (worst[a] != base[a]) & (v != worst[a])); worst[a] = v != base[a] ? v : worst[a]; } m[a] = v; }
  byte readBytes(unsigned a, byte n, byte d[]) { for (byte i = 0; i < n; i++) d[i] = read(a + i); return n; }
  void writeBytes(unsigned a, const byte s[], byte n) { for (byte i = 0; i < n; i++) write(a + i, s[i]); }
  void reset() { ++resets; for (unsigned i = LOCATION_RESERVED_SIZE; i < size; i++) m[i] = 0xff; }
  void symbolic(unsigned from, unsigned to) { for (unsigned i = from; i < to; i++) m[i] = sx_u8("mem"); }
};

struct Msg { byte len; byte d[8]; };
struct M { int n; int b[8]; M(int a0, int a1 = -1, int a2 = -1, int a3 = -1, int a4 = -1, int a5 = -1, int a6 = -1, int a7 = -1) { b[0] = a0; b[1] = a1; b[2] = a2; b[3] = a3; b[4] = a4; b[5] = a5; b[6] = a6; b[7] = a7; n = 0; while (n < 8 && b[n] != -1) n++; } };
static inline bool same(const Msg &m, const M &w) { bool ok = m.len == w.n; for (int i = 0; i < w.n; i++) ok = ok & (m.d[i] == (byte)w.b[i]); return ok; }

// Last service of the node: records what the services send and signal.
struct Recorder : Service
{
  Msg out[64]; int n; int activity, enumReq, enumFromMsg, modes, lastMode; Msg in[8]; int nin; int others;
  void clear() { n = activity = enumReq = enumFromMsg = modes = nin = others = 0; lastMode = -1; }
  Recorder() { clear(); }
  VlcbServiceTypes getServiceID() const { return (VlcbServiceTypes)0; }
  byte getServiceVersionID() const { return 0; }
  void process(const Action *a)
  {
    if (!a) return;
    switch (a->actionType)
    {
      case ACT_MESSAGE_OUT: sx_assert(n < 64, "too many messages sent"); sx_assert(a->vlcbMessage.len <= 8, "a sent message has at most 8 bytes"); out[n].len = a->vlcbMessage.len; for (int i = 0; i < 8; i++) out[n].d[i] = i < a->vlcbMessage.len ? a->vlcbMessage.data[i] : 0; n++; break;
      case ACT_MESSAGE_IN: if (nin < 8) { in[nin].len = a->vlcbMessage.len; for (int i = 0; i < 8; i++) in[nin].d[i] = a->vlcbMessage.data[i]; } nin++; break;
      case ACT_START_CAN_ENUMERATION: enumReq++; enumFromMsg += a->fromENUM; break;
      case ACT_INDICATE_MODE: modes++; lastMode = a->mode; break;
      case ACT_INDICATE_ACTIVITY: activity++; break;
      default: others++; break;
    }
  }
  int count(const M &w) const { int c = 0; for (int i = 0; i < n; i++) c += same(out[i], w); return c; }
};
// exactly these messages (single / two in either order / none)
static inline bool only(const Recorder &r, const M &a) { return r.n == 1 && same(r.out[0], a); }
static inline bool both(const Recorder &r, const M &a, const M &b) { return r.n == 2 && ((same(r.out[0], a) & same(r.out[1], b)) | (same(r.out[0], b) & same(r.out[1], a))); }

static inline int hi(unsigned v) { return (v >> 8) & 255; }
static inline int lo(unsigned v) { return v & 255; }
#define GRSPM(op, svc, code) M(OPC_GRSP, hi(nn), lo(nn), op, svc, code)
#define CMDERRM(code) M(OPC_CMDERR, hi(nn), lo(nn), code)
#define WRACKM M(OPC_WRACK, hi(nn), lo(nn))

struct Node
{
  Mem *mem; Configuration *conf; Controller *ctl; Recorder *rec; byte params[21]; byte name[8];
  Node(unsigned size) { mem = MAKE(Mem, size); conf = MAKE(Configuration, mem); rec = MAKE(Recorder); }
  void geometry(byte nvs, byte events, byte evs, unsigned eventsStart = 0) { conf->EE_NUM_NVS = nvs; conf->EE_MAX_EVENTS = events; conf->EE_NUM_EVS = evs; conf->EE_EVENTS_START = eventsStart; conf->EE_NVS_START = 10; }
  // default parameter block and name, as a sketch sets them
  void start(Controller *c)
  {
    ctl = c;
    for (int i = 0; i < 21; i++) params[i] = 0x40 + i;
    params[PAR_NUM] = 20; params[PAR_EVTNUM] = conf->EE_MAX_EVENTS; params[PAR_EVNUM] = conf->EE_NUM_EVS; params[PAR_NVNUM] = conf->EE_NUM_NVS;
    for (int i = 0; i < 7; i++) name[i] = 'a' + i;
    ctl->setParams(params); ctl->setName(name);
    ctl->begin();
    drain(); rec->clear();
  }
  void drain(int max = 70) { for (int i = 0; ctl->pendingAction() && i < max; i++) ctl->process(); sx_assert(!ctl->pendingAction(), "actions are eventually processed"); }
  // one idle poll and everything it leads to
  void poll() { ctl->process(); drain(); }
  void receive(const Msg &m) { Action a = {ACT_MESSAGE_IN, {m.len}}; for (int i = 0; i < 8; i++) a.vlcbMessage.data[i] = m.d[i]; ctl->putAction(a); drain(); }
  void receive(const M &w) { Msg m; m.len = w.n; for (int i = 0; i < 8; i++) m.d[i] = i < w.n ? w.b[i] : 0; receive(m); }
  unsigned evAddr(unsigned i) { return conf->EE_EVENTS_START + i * conf->EE_BYTES_PER_EVENT; }
};

// A received message: bytes beyond the length are zero, as CanService delivers them.
static inline Msg symMsg(int len) { Msg m; m.len = len; for (int i = 0; i < 8; i++) m.d[i] = i < len ? sx_u8("d") : 0; return m; }

// The stored settings of a module that is in one of its regular states.
static inline void regularSettings(Mem *mem, int mode)
{
  mem->symbolic(1, 10);
  mem->m[LOCATION_MODE] = mode;
}
