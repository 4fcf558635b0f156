// Module configuration: C12 start-up and factory reset, C19 event lookup.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
#include "node.h"
#include "MinimumNodeService.h"
Storage *VLCB::createDefaultStorageForPlatform() { return nullptr; }
namespace VLCB { Configuration config(nullptr); }

static byte bytesOf(unsigned v, int i) { return i == 0 ? hi(v) : lo(v); }
struct Conf
{
  Mem *mem; Configuration *c; unsigned start, evs, events, nvs;
  Conf(unsigned nvs_, unsigned events_, unsigned evs_, unsigned extra = 0, unsigned fixedStart = 0)
  {
    nvs = nvs_; events = events_; evs = evs_; start = fixedStart ? fixedStart : 10 + nvs;
    mem = MAKE(Mem, start + events * (4 + evs) + extra); c = fresh();
  }
  Configuration *fresh() { Configuration *x = MAKE(Configuration, mem); x->EE_NUM_NVS = nvs; x->EE_MAX_EVENTS = events; x->EE_NUM_EVS = evs; if (start != 10 + nvs) x->EE_EVENTS_START = start; return x; }
  byte *ev(unsigned i) { return mem->m + start + i * (4 + evs); }
  bool used(unsigned i) { byte *e = ev(i); return !((e[0] == 255) & (e[1] == 255) & (e[2] == 255) & (e[3] == 255)); }
  bool is(unsigned i, unsigned nn, unsigned en) { byte *e = ev(i); return (e[0] == hi(nn)) & (e[1] == lo(nn)) & (e[2] == hi(en)) & (e[3] == lo(en)); }
  // the oracle: first entry holding the pair, first free one, number of used ones
  unsigned where(unsigned nn, unsigned en) { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = is(i, nn, en) & used(i) ? i : r; return r; }
  unsigned freeSlot() { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = used(i) ? r : i; return r; }
  unsigned count() { unsigned r = 0; for (unsigned i = 0; i < events; i++) r += used(i); return r; }
  void check(unsigned nn, unsigned en)
  {
    sx_assert(c->findExistingEvent(nn, en) == where(nn, en), "lookup returns the first entry that stores the event");
    sx_assert(c->findEventSpace() == freeSlot(), "free-entry search returns the first unused entry");
    sx_assert(c->numEvents() == count(), "the event count is the number of used entries");
    byte t = sx_u8("t");
    bool inUse = false; for (unsigned i = 0; i < events; i++) inUse = inUse | ((t == i) & used(i));
    sx_assert((c->getEvTableEntry(t) != 0) == inUse, "an entry is reported used exactly if it stores an event");
  }
};
static void regular(Mem *m) { m->m[LOCATION_MODE] = MODE_NORMAL; }

// --- C19 ---------------------------------------------------------------------------------------
static void lookup(unsigned nvs, unsigned events, unsigned evs, unsigned start = 0)
{
  if (events) sx_need("found"); sx_need("not found");
  Conf k(nvs, events, evs, 3, start); regular(k.mem);
  for (unsigned i = 0; i < events; i++) for (int b = 0; b < 4; b++) k.ev(i)[b] = sx_u8("event");
  k.c->begin();
  unsigned nn = sx_u16("nn"), en = sx_u16("en");
  if (k.where(nn, en) < events) sx_cover("found"); else sx_cover("not found");
  k.check(nn, en);
}
CASE(C19_lookup_0) { lookup(0, 0, 0); }
CASE(C19_lookup_1) { lookup(3, 1, 0); }
CASE(C19_lookup_4) { lookup(0, 4, 2); }
CASE(C19_lookup_12) { lookup(10, 12, 20); }
CASE(C19_lookup_start) { lookup(4, 5, 3, 40); }
// large tables: the event is stored first at an arbitrary entry, or nowhere; everything else is arbitrary
static void first(unsigned nvs, unsigned events, unsigned evs, unsigned from, unsigned to)
{
  Conf k(nvs, events, evs); regular(k.mem);
  unsigned nn = sx_u16("nn"), en = sx_u16("en"); sx_assume(!((nn == 0xffff) & (en == 0xffff)));
  unsigned at = sx_fork(sx_range("at", from, to));
  for (unsigned i = 0; i < events; i++)
  {
    byte *e = k.ev(i);
    // far from the entry a fixed event, near it any
    if (i != at && (i + 16 < from || i > to + 4)) { e[0] = 1; e[1] = i * 7; e[2] = i >> 2; e[3] = i; }
    else for (int b = 0; b < 4; b++) e[b] = i != at ? sx_u8("event") : b < 2 ? bytesOf(nn, b) : bytesOf(en, b - 2);
    if (i < at) sx_assume(!k.is(i, nn, en));
  }
  k.c->begin();
  sx_assert(k.c->findExistingEvent(nn, en) == at, "lookup returns the first entry that stores the event, or reports that there is none");
}
CASE(C19_first_32) { first(255, 32, 1, 0, 32); }
// @case cost=30
CASE(C19_first_255_low) { first(1, 255, 8, 0, 2); }
// @case cost=30
CASE(C19_first_255_mid) { first(1, 255, 8, 126, 129); }
// @case cost=30
CASE(C19_first_255_high) { first(1, 255, 8, 253, 255); }
static void counts(unsigned events)
{
  Conf k(1, events, 3); regular(k.mem);
  for (unsigned i = 0; i < events; i++) for (int b = 0; b < 4; b++) k.ev(i)[b] = sx_u8("event");
  k.c->begin();
  sx_assert(k.c->findEventSpace() == k.freeSlot(), "free-entry search returns the first unused entry");
  sx_assert(k.c->numEvents() == k.count(), "the event count is the number of used entries");
}
// @case cost=30
CASE(C19_counts_48) { counts(48); }
// a large table in which a few entries are arbitrary, the others are fixed events
static void sparse(unsigned events, unsigned evs)
{
  Conf k(2, events, evs, 0); regular(k.mem);
  for (unsigned i = 0; i < events; i++) { byte *e = k.ev(i); e[0] = 1; e[1] = i * 7; e[2] = i >> 2; e[3] = i; }
  unsigned at[6] = {0, 1, events / 2, 129 % events, events - 2, events - 1};
  for (int j = 0; j < 6; j++) for (int b = 0; b < 4; b++) k.ev(at[j])[b] = sx_u8("event");
  k.c->begin();
  k.check(sx_u16("nn"), sx_u16("en"));
}
CASE(C19_sparse_200) { sparse(200, 1); }
CASE(C19_sparse_255) { sparse(255, 16); }
CASE(C19_sparse_255_wide) { sparse(255, 251); }
CASE(C19_sparse_129) { sparse(129, 0); }
// any history of table updates: the lookup structure never goes stale
static void history(unsigned events, int steps)
{
  Conf k(1, events, 2); regular(k.mem);
  for (unsigned i = 0; i < events; i++) for (int b = 0; b < 4; b++) k.ev(i)[b] = sx_u8("event");
  k.c->begin();
  for (int s = 0; s < steps; s++)
  {
    byte ix = sx_range("ix", 0, events - 1);
    switch (sx_fork(sx_range("op", 0, 3)))
    {
      case 0: { byte e[4]; for (int b = 0; b < 4; b++) e[b] = sx_u8("new"); k.c->writeEvent(ix, e); k.c->updateEvHashEntry(ix); break; }
      case 1: k.c->cleareventEEPROM(ix); k.c->updateEvHashEntry(ix); break;
      case 2: k.c->writeEventEV(ix, sx_range("ev", 1, 2), sx_u8("val")); break;
      case 3: for (unsigned i = 0; i < events; i++) k.c->cleareventEEPROM(i); k.c->clearEvHashTable(); break;
    }
  }
  k.check(sx_u16("nn"), sx_u16("en"));
}
// @case cost=20
CASE(C19_history_3) { history(3, 3); }
// @case cost=20
CASE(C19_history_one) { history(1, 4); }
// @case cost=100 tier=thorough
CASE(C19_history_5) { history(4, 5); }
// stored identity and variables are read back from the entry they were written to
static void access(unsigned events, unsigned from)
{
  Conf k(3, events, 5, 0); regular(k.mem); k.c->begin();
  byte ix = sx_fork(sx_range("ix", from, from + 2)), ev = sx_range("ev", 1, 5), jx = sx_range("jx", 0, events - 1), fv = sx_range("fv", 1, 5);
  byte e[4], g[4], v = sx_u8("v"), w = sx_u8("w"); for (int b = 0; b < 4; b++) e[b] = sx_u8("e");
  k.c->writeEvent(ix, e); k.c->writeEventEV(ix, ev, v); k.c->writeEventEV(jx, fv, w);
  k.c->readEvent(ix, g); sx_assert(memcmp(e, g, 4) == 0, "the identity reads back");
  sx_assert(k.c->getEventEVval(jx, fv) == w, "the last variable reads back");
  sx_assert(k.c->getEventEVval(ix, ev) == (ix == jx && ev == fv ? w : v), "the first variable reads back unless overwritten");
  for (unsigned i = 0; i < 13; i++) sx_assert(k.mem->m[i] == (i == LOCATION_MODE ? MODE_NORMAL : 0), "settings and node variables stay");
}

CASE(C19_access_20) { access(20, 0); }
CASE(C19_access_255) { access(255, 127); }
CASE(C19_access_255_last) { access(255, 252); }

// --- C12 ---------------------------------------------------------------------------------------
static void blankState(Conf &k, Configuration *c)
{
  sx_assert(c->currentMode == MODE_UNINITIALISED && c->nodeNum == 0 && c->CANID == 0, "uninitialised, node number 0, CAN id 0");
  sx_assert(!c->heartbeat && !c->eventAck, "heartbeat and acknowledgement off");
  for (unsigned i = 1; i <= k.nvs; i++) sx_assert(c->readNV(i) == 0, "all node variables are 0");
  sx_assert(c->numEvents() == 0 && c->findEventSpace() == 0, "no events");
  sx_assert(c->findExistingEvent(sx_u16("nn"), sx_u16("en")) == k.events, "no event is found");
}
static void blank(unsigned nvs, unsigned events, unsigned evs, bool dirty)
{
  Conf k(nvs, events, evs, 2);
  for (unsigned i = 0; i < k.mem->size; i++) k.mem->m[i] = 0xff;
  // virgin device: only mode and node number need to be blank
  if (dirty) { k.mem->symbolic(0, k.mem->size); k.mem->m[LOCATION_MODE] = k.mem->m[LOCATION_NODE_NUMBER_HIGH] = k.mem->m[LOCATION_NODE_NUMBER_LOW] = 0xff; }
  k.c->begin(); blankState(k, k.c);
  sx_assert(!k.c->isResetFlagSet(), "a first start is not flagged as a commanded reset");
  sx_assert(k.mem->begins == 1, "the storage is started");
  byte *old = new byte[k.mem->size]; memcpy(old, k.mem->m, k.mem->size); unsigned resets = k.mem->resets;
  Configuration *again = k.fresh(); again->begin(); blankState(k, again);
  sx_assert(!again->isResetFlagSet() && k.mem->resets == resets, "the second start does not reset again");
  bool eq = true; for (unsigned i = 0; i < k.mem->size; i++) eq = eq & (k.mem->m[i] == old[i]);
  sx_assert(eq, "the second start changes nothing");
}
CASE(C12_blank) { blank(4, 5, 3, false); }
CASE(C12_blank_empty) { blank(0, 0, 0, false); }
CASE(C12_blank_full) { blank(255, 255, 4, false); }
CASE(C12_blank_dirty) { blank(6, 4, 2, true); }
// start from any stored contents
static void regularStart(unsigned nvs, unsigned events, unsigned evs)
{
  sx_need("normal"); sx_need("setup"); sx_need("uninitialised"); sx_need("other");
  Conf k(nvs, events, evs, 2); k.mem->symbolic(0, k.mem->size); byte *m = k.mem->m;
  byte mode = m[LOCATION_MODE], canid = m[LOCATION_CANID], h = m[LOCATION_NODE_NUMBER_HIGH], l = m[LOCATION_NODE_NUMBER_LOW], fl = m[LOCATION_FLAGS];
  sx_assume(!(((mode == 255) | (mode == MODE_SETUP)) & (h == 255) & (l == 255)));   // a blank or half-erased device: see C12_blank
  byte *old = new byte[k.mem->size]; memcpy(old, m, k.mem->size);
  k.c->begin();
  for (int round = 0; round < 2; round++)
  {
    Configuration *c = round ? k.fresh() : k.c; if (round) c->begin();
    sx_assert(c->currentMode == (mode == MODE_SETUP ? MODE_UNINITIALISED : mode), "the stored mode is restored, setup becomes uninitialised");
    sx_assert(c->nodeNum == h * 256u + l && c->CANID == canid, "node number and CAN id are restored");
    sx_assert(c->heartbeat == (fl & 1) && c->eventAck == ((fl >> 1) & 1), "heartbeat and acknowledgement are restored");
    sx_assert(c->isResetFlagSet() == (old[LOCATION_RESET_FLAG] == 99), "the reset flag is what was stored");
    bool eq = true; for (unsigned i = 0; i < k.mem->size; i++) eq = eq & (m[i] == (i == LOCATION_MODE && mode == MODE_SETUP ? MODE_UNINITIALISED : old[i]));
    sx_assert(eq, "no stored byte changes except setup mode");
    unsigned nn = sx_u16("nn"), en = sx_u16("en");
    sx_assert(c->findExistingEvent(nn, en) == k.where(nn, en) && c->numEvents() == k.count(), "all stored events are recognised");
    for (unsigned i = 1; i <= nvs; i++) sx_assert(c->readNV(i) == old[9 + i], "node variables are restored");
  }
  sx_assert(k.mem->resets == 0, "nothing is blanked");
  if (mode == MODE_NORMAL) sx_cover("normal"); else if (mode == MODE_SETUP) sx_cover("setup"); else if (mode == MODE_UNINITIALISED) sx_cover("uninitialised"); else sx_cover("other");
}
CASE(C12_start) { regularStart(4, 4, 2); }
CASE(C12_start_small) { regularStart(0, 1, 0); }
CASE(C12_start_large) { regularStart(40, 8, 6); }
// factory reset by command or by call, from any contents, then restart
static void factory(unsigned nvs, unsigned events, unsigned evs, bool command)
{
  Node *n = new Node(10 + nvs + events * (4 + evs)); n->geometry(nvs, events, evs);
  n->mem->symbolic(0, n->mem->size); n->mem->m[LOCATION_MODE] = MODE_NORMAL;
  n->start(MAKE(Controller, n->conf, {MAKE(MinimumNodeService), n->rec})); unsigned nn = n->conf->nodeNum;
  byte *m = n->mem->m; byte r6 = m[6], r9 = m[9];
  if (command) { n->receive(M(OPC_NNRSM, hi(nn), lo(nn))); sx_assert(only(*n->rec, M(OPC_NNREL, hi(nn), lo(nn))), "the node number is released"); }
  else n->conf->resetModule();
  sx_assert(n->conf->isResetFlagSet(), "the reset is flagged"); sx_assert(n->mem->resets == 1, "the storage is blanked once");
  Configuration *c = MAKE(Configuration, n->mem); c->EE_NUM_NVS = nvs; c->EE_MAX_EVENTS = events; c->EE_NUM_EVS = evs;
  c->begin();
  Conf k(nvs, events, evs); k.mem = n->mem; blankState(k, c);
  sx_assert(c->isResetFlagSet(), "the reset is still flagged after the restart");
  sx_assert(m[6] == r6 && m[9] == r9, "reserved bytes stay");
  c->clearResetFlag(); sx_assert(!c->isResetFlagSet(), "the application can clear the flag");
  c->setResetFlag(); sx_assert(c->isResetFlagSet(), "and set it");
}
CASE(C12_factory_call) { factory(5, 4, 3, false); }
CASE(C12_factory_command) { factory(5, 4, 3, true); }
CASE(C12_factory_large) { factory(255, 100, 2, true); }
CASE(C12_factory_none) { factory(0, 0, 0, true); }
// settings written while running are the ones restored
CASE(C12_settings)
{
  Conf k(2, 2, 1); regular(k.mem); k.mem->symbolic(1, 10); k.c->begin();
  for (int s = 0; s < 3; s++)
    switch (sx_fork(sx_range("op", 0, 5)))
    {
      case 0: k.c->setCANID(sx_u8("id")); break;
      case 1: k.c->setNodeNum(sx_u16("nn")); break;
      case 2: k.c->setHeartbeat(sx_bool("hb")); break;
      case 3: k.c->setEventAck(sx_bool("ack")); break;
      case 4: k.c->setModuleNormalMode(sx_u16("nn")); sx_assert(k.c->currentMode == MODE_NORMAL, "normal"); break;
      case 5: k.c->setModuleUninitializedMode(); sx_assert(k.c->currentMode == MODE_UNINITIALISED && k.c->nodeNum == 0 && k.c->CANID == 0, "released"); break;
    }
  sx_assume(!(k.c->currentMode == MODE_UNINITIALISED && k.c->nodeNum == 0xffff));
  Configuration *c = k.fresh(); c->begin();
  sx_assert(c->currentMode == k.c->currentMode && c->nodeNum == k.c->nodeNum && c->CANID == k.c->CANID && c->heartbeat == k.c->heartbeat && c->eventAck == k.c->eventAck, "a restart restores the running settings");
}
