// Events in and out: C24 consumed events, C25 produced events, C26 status requests.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source MinimumNodeServiceWithDiagnostics.cpp
// @source CanService.cpp
// @source CanServiceWithDiagnostics.cpp
// @source NodeVariableService.cpp
// @source EventTeachingService.cpp
// @source EventTeachingServiceWithDiagnostics.cpp
// @source EventConsumerService.cpp
// @source EventConsumerServiceWithDiagnostics.cpp
// @source EventProducerService.cpp
// @source EventProducerServiceWithDiagnostics.cpp
#include "fullnode.h"

struct Io : Node
{
  EventConsumerService *cons; EventProducerService *prod; unsigned nn, events, evs; byte *old;
  Io(unsigned nvs, unsigned events_, unsigned evs_) : Node(10 + nvs + events_ * (4 + evs_))
  {
    events = events_; evs = evs_; geometry(nvs, events, evs); regularSettings(mem, sx_bool("uninitialised") ? MODE_UNINITIALISED : MODE_NORMAL); consumed.n = requested.n = 0;
    cons = MAKE(EventConsumerService); prod = MAKE(EventProducerService);
  }
  void table() { mem->symbolic(base(0), mem->size); }
  // a large table: everything unused except for some entries with arbitrary contents
  void sparse(unsigned p, unsigned q, unsigned r)
  {
    for (unsigned a = base(0); a < mem->size; a++) mem->m[a] = 255;
    mem->symbolic(base(p), base(p + 1)); mem->symbolic(base(q), base(q + 1)); mem->symbolic(base(r), base(r + 1));
  }
  void go(bool coe = false)
  {
    cons->setEventHandler(onEvent); prod->setRequestEventHandler(onRequest);
    if (coe) start(MAKE(Controller, conf, {cons, prod, MAKE(ConsumeOwnEventsService), rec})); else start(MAKE(Controller, conf, {prod, cons, rec}));
    // in learn mode or not, in setup or not
    params[PAR_FLAGS] ^= sx_u8("flags") & (PF_LRN | PF_NORMAL | PF_BOOT);
    nn = conf->nodeNum; snap();
  }
  void snap() { rec->clear(); old = (byte *)malloc(mem->size); memcpy(old, mem->m, mem->size); }
  unsigned base(unsigned i) { return 10 + conf->EE_NUM_NVS + i * (4 + evs); }
  byte *e(unsigned i) { return old + base(i); }
  bool used(unsigned i) { byte *x = e(i); return !((x[0] == 255) & (x[1] == 255) & (x[2] == 255) & (x[3] == 255)); }
  bool is(unsigned i, unsigned a, unsigned b) { byte *x = e(i); return (x[0] == hi(a)) & (x[1] == lo(a)) & (x[2] == hi(b)) & (x[3] == lo(b)) & used(i); }
  unsigned where(unsigned a, unsigned b) { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = is(i, a, b) ? i : r; return r; }
  unsigned freeSlot() { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = used(i) ? r : i; return r; }
  unsigned channel(byte v) { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = used(i) & (e(i)[4] == v) ? i : r; return r; }
  // entries whose node number is 65535 are reserved for unused ones
  void noReserved() { for (unsigned i = 0; i < events; i++) sx_assume(!used(i) || !((e(i)[0] == 255) & (e(i)[1] == 255))); sx_assume(nn != 0xffff); }
  void unchanged() { bool ok = true; for (unsigned a = 0; a < mem->size; a++) ok = ok & (mem->m[a] == old[a]); sx_assert(ok, "stored data stays as it is"); }
};
static bool oneOf(byte v, const byte *l, int n) { bool r = false; for (int i = 0; i < n; i++) r = r | (v == l[i]); return r; }

// --- C24 ---------------------------------------------------------------------------------------
static const byte longOps[] = {0x90, 0x91, 0xB0, 0xB1, 0xD0, 0xD1, 0xF0, 0xF1, 0x93, 0x94};
static const byte shortOps[] = {0x98, 0x99, 0xB8, 0xB9, 0xD8, 0xD9, 0xF8, 0xF9};
// status responses that the library leaves to the application: not decided here
static const byte openOps[] = {0xB3, 0xB4, 0xD4, 0xD5, 0xF3, 0xF4, 0x9D, 0x9E, 0xBD, 0xBE, 0xDD, 0xDE, 0xFD, 0xFE, 0xF6, 0xF7};
static void expectConsumed(Io *n, const Msg &m, int before)
{
  unsigned a = m.d[1] * 256u + m.d[2], b = m.d[3] * 256u + m.d[4];
  bool isLong = oneOf(m.d[0], longOps, sizeof longOps), isShort = oneOf(m.d[0], shortOps, sizeof shortOps);
  unsigned at = sx_fork(n->where(isShort ? 0 : a, b));
  if ((isLong || isShort) && at < n->events)
  {
    sx_cover("handled"); sx_assert(consumed.n == before + 1, "the handler runs exactly once");
    sx_assert(consumed.index[before] == at, "with the entry that stores the event");
    bool ok = consumed.m[before].len == m.len; for (int i = 0; i < 8; i++) ok = ok & (consumed.m[before].d[i] == m.d[i]); sx_assert(ok, "and with the unmodified message");
  }
  else { sx_cover("ignored"); sx_assert(consumed.n == before, "the handler runs for nothing else"); }
}
static void consume(unsigned nvs, unsigned events, unsigned evs, bool coe, int steps)
{
  if (events) sx_need("handled"); sx_need("ignored");
  Io *n = new Io(nvs, events, evs); n->table(); n->go(coe);
  for (int s = 0; s < steps; s++)
  {
    Msg m = symMsg(sx_fork(sx_range("len", 5, 8))); sx_assume(!oneOf(m.d[0], openOps, sizeof openOps));
    int before = consumed.n; n->receive(m); expectConsumed(n, m, before);
    sx_assert(n->rec->n == 0, "consuming sends nothing"); n->unchanged();
  }
}
CASE(C24_in_3x2) { consume(2, 3, 2, false, 1); }
CASE(C24_in_3x2_coe) { consume(2, 3, 2, true, 1); }
CASE(C24_in_0) { consume(2, 0, 2, false, 1); }
CASE(C24_in_1x1) { consume(0, 1, 1, false, 1); }
// @case cost=20
CASE(C24_in_6) { consume(0, 6, 1, false, 1); }
static void consumeSparse(unsigned events, unsigned evs, unsigned p, unsigned q, unsigned r)
{
  sx_need("handled"); sx_need("ignored");
  Io *n = new Io(1, events, evs); n->sparse(p, q, r); n->go();
  Msg m = symMsg(5); sx_assume(!oneOf(m.d[0], openOps, sizeof openOps)); n->receive(m); expectConsumed(n, m, 0); n->unchanged();
}
CASE(C24_in_255) { consumeSparse(255, 1, 126, 128, 254); }
CASE(C24_in_255_edges) { consumeSparse(255, 3, 0, 127, 253); }
CASE(C24_in_130) { consumeSparse(130, 20, 63, 64, 129); }
CASE(C24_in_twice) { consume(0, 2, 1, false, 2); }
// messages the module sends itself
static void own(bool coe)
{
  if (coe) sx_need("handled"); sx_need("ignored");
  Io *n = new Io(1, 3, 2); n->table(); n->go(coe);
  Msg m = symMsg(sx_fork(sx_range("len", 5, 8))); sx_assume(!oneOf(m.d[0], openOps, sizeof openOps));
  VlcbMessage v; v.len = m.len; for (int i = 0; i < 8; i++) v.data[i] = m.d[i];
  n->ctl->sendMessage(&v); n->drain();
  if (coe) expectConsumed(n, m, 0); else { sx_cover("ignored"); sx_assert(consumed.n == 0, "own events are not consumed unless configured"); }
  sx_assert(n->rec->n == 1, "the message itself is sent once");
}
CASE(C24_own_consumed) { own(true); }
CASE(C24_own_ignored) { own(false); }
// a produced event reaches the module's own consumer
static void produceAndConsume(bool coe)
{
  Io *n = new Io(0, 3, 2); n->table(); n->go(coe); n->noReserved(); byte ch = sx_u8("ch"); sx_assume(ch != 0);
  sx_assume(n->nn != 0 && n->channel(ch) < n->events); unsigned at = n->channel(ch); bool st = sx_fork(sx_bool("state"));
  n->prod->sendEvent(st, ch); n->drain();
  byte *x = n->e(sx_fork(at)); unsigned first = n->where(x[0] * 256u + x[1], x[2] * 256u + x[3]);
  sx_assert(consumed.n == (coe ? 1 : 0), "consumed exactly when configured"); if (coe) sx_assert(consumed.index[0] == first && consumed.m[0].len == 5, "with the entry that stores it");
}
CASE(C24_produced_consumed) { produceAndConsume(true); }
CASE(C24_produced_ignored) { produceAndConsume(false); }
// no handler registered; events changed while running
CASE(C24_no_handler)
{
  Io *n = new Io(0, 2, 1); n->table(); n->go(sx_fork(sx_bool("coe"))); n->cons->setEventHandler(nullptr); Msg m = symMsg(8); n->receive(m);
  sx_assert(consumed.n == 0 && n->rec->n == 0, "nothing is called when no handler is registered");
}
// through the whole module, with teaching in between
CASE(C24_taught_then_consumed)
{
  FullNode *n = new FullNode(1, 3, 2); regularSettings(n->mem, MODE_NORMAL); for (unsigned a = 11; a < n->mem->size; a++) n->mem->m[a] = 255; n->go(PLAIN); unsigned nn = n->nn;
  byte id[4], id2[4]; for (int i = 0; i < 4; i++) { id[i] = sx_u8("id"); id2[i] = sx_u8("id2"); } sx_assume(!(id[0] == 255 && id[1] == 255 && id[2] == 255 && id[3] == 255)); sx_assume(!(id2[0] == 255 && id2[1] == 255 && id2[2] == 255 && id2[3] == 255));
  n->receive(M(OPC_NNLRN, hi(nn), lo(nn))); byte ev = sx_range("ev", 1, 2);
  n->receive(M(OPC_EVLRN, id[0], id[1], id[2], id[3], ev, 0)); n->receive(M(OPC_EVLRN, id2[0], id2[1], id2[2], id2[3], ev, 0)); n->receive(M(OPC_EVULN, id[0], id[1], id[2], id[3])); n->receive(M(OPC_NNULN, hi(nn), lo(nn)));
  bool eq = memcmp(id, id2, 4) == 0; consumed.n = 0;
  n->receive(M(OPC_ACON, id[0], id[1], id[2], id[3])); sx_assert(consumed.n == 0, "an unlearned event is ignored");
  n->receive(M(OPC_ACOF, id2[0], id2[1], id2[2], id2[3])); sx_assert(consumed.n == (eq ? 0 : 1), "a taught event is consumed"); if (!eq) sx_assert(consumed.index[0] == 1, "by its entry");
  n->rec->clear(); n->receive(M(OPC_ASON, 7, 7, id2[2], id2[3])); sx_assert(consumed.n == (eq ? 0 : 1) + (!eq && id2[0] == 0 && id2[1] == 0 ? 1 : 0), "short events match node number zero");
}

// --- C25 ---------------------------------------------------------------------------------------
static const byte onOps[2][4] = {{0x90, 0xB0, 0xD0, 0xF0}, {0x98, 0xB8, 0xD8, 0xF8}};
static void produce(Io *n, bool st, byte ch, int data, bool fork)
{
  byte b[3] = {sx_u8("b"), sx_u8("b"), sx_u8("b")}; n->snap();
  switch (data) { case 0: n->prod->sendEvent(st, ch); break; case 1: n->prod->sendEvent(st, ch, b[0]); break; case 2: n->prod->sendEvent(st, ch, b[0], b[1]); break; default: n->prod->sendEvent(st, ch, b[0], b[1], b[2]); }
  n->drain();
  unsigned at = sx_fork(n->channel(ch)), a, en; byte id[4];
  if (at < n->events) { sx_cover("taught"); for (int i = 0; i < 4; i++) id[i] = n->e(at)[i]; n->unchanged(); }
  else
  {
    at = sx_fork(n->freeSlot());
    if (at >= n->events) { sx_cover("full"); n->unchanged(); sx_assert(n->rec->n == 0, "an event that cannot be stored is not sent"); return; }
    sx_cover("default");
    en = n->events; for (unsigned q = n->events; q >= 1; q--) en = n->where(n->nn, q) >= n->events ? q : en;
    id[0] = hi(n->nn); id[1] = lo(n->nn); id[2] = hi(en); id[3] = lo(en);
    bool ok = true;
    for (unsigned x = 0; x < n->mem->size; x++)
    {
      byte want = n->old[x]; if (x >= n->base(at) && x < n->base(at + 1)) { unsigned o = x - n->base(at); want = o < 4 ? id[o] : o == 4 ? ch : 0; }
      ok = ok & (n->mem->m[x] == want);
    }
    sx_assert(ok, "the default identity is stored in the first free entry and nothing else changes");
  }
  bool sh = id[0] == 0 && id[1] == 0; if (sh) { id[0] = hi(n->nn); id[1] = lo(n->nn); sx_cover("short"); }
  sx_assert(n->rec->n == 1, "exactly one message is sent"); Msg &m = n->rec->out[0]; byte op = onOps[sh][data] + !st;
  bool ok = (m.len == 5 + data) & (m.d[0] == op); for (int i = 0; i < 4; i++) ok = ok & (m.d[1 + i] == id[i]); for (int i = 0; i < data; i++) ok = ok & (m.d[5 + i] == b[i]);
  sx_assert(ok, "op-code, identity and data bytes are right");
}
static void produces(unsigned nvs, unsigned events, unsigned evs, int steps)
{
  if (events) { sx_need("taught"); sx_need("default"); sx_need("short"); } if (steps == 1 || !events) sx_need("full");
  Io *n = new Io(nvs, events, evs); n->table(); n->go(); n->noReserved();
  for (int s = 0; s < steps; s++) { byte ch = sx_u8("ch"); sx_assume(ch != 0); bool st = sx_fork(sx_bool("state")); int data = steps > 1 ? (s * 3 + 1) % 4 : sx_fork(sx_range("data", 0, 3)); produce(n, st, ch, data, true); }
}
CASE(C25_send_3x2) { produces(2, 3, 2, 1); }
CASE(C25_send_0) { produces(2, 0, 2, 1); }
CASE(C25_send_1x1) { produces(0, 1, 1, 1); }
CASE(C25_send_2x5) { produces(1, 2, 5, 1); }
CASE(C25_send_twice) { produces(0, 2, 2, 2); }
// @case tier=thorough cost=50
CASE(C25_send_three) { produces(0, 3, 1, 3); }
// @case tier=thorough cost=50
CASE(C25_send_5) { produces(0, 5, 1, 1); }
// the identity created once is used from then on, for every channel
CASE(C25_stable)
{
  Io *n = new Io(0, 4, 1); for (unsigned a = n->base(0); a < n->mem->size; a++) n->mem->m[a] = 255; n->go(); sx_assume(n->nn != 0xffff && n->nn != 0); unsigned nn = n->nn;
  byte c1 = sx_u8("c1"), c2 = sx_u8("c2"); sx_assume(c1 && c2 && c1 != c2 && c1 != 255 && c2 != 255);
  byte seq[5] = {c1, c2, c1, c2, c1}; for (int i = 0; i < 5; i++) { n->rec->clear(); n->prod->sendEvent(i & 1, seq[i]); n->drain(); sx_assert(only(*n->rec, M(i & 1 ? OPC_ACON : OPC_ACOF, hi(nn), lo(nn), 0, seq[i] == c1 ? 1 : 2)), "the same identity every time, one per channel"); }
  sx_assert(n->conf->numEvents() == 2, "one entry per channel");
}
// large tables
static void produceLarge(bool full)
{
  Io *n = new Io(1, 250, 2); n->mem->m[2] = 1; n->mem->m[3] = 4;
  for (unsigned i = 0; i < 250; i++) { byte *x = n->mem->m + n->base(i); x[0] = 1; x[1] = i & 1 ? 4 : 5; x[2] = 0; x[3] = i; x[4] = i & 31; }
  if (!full) { n->mem->symbolic(n->base(128), n->base(128) + 5); n->mem->symbolic(n->base(249), n->base(249) + 5); }
  n->go(); n->noReserved(); byte ch = sx_range("ch", 30, 40); produce(n, true, ch, 0, true);
}
static void produceSparse(unsigned events, unsigned evs, unsigned p, unsigned q, unsigned r)
{
  sx_need("taught"); sx_need("default"); sx_need("short");
  Io *n = new Io(1, events, evs); n->sparse(p, q, r); n->go(); n->noReserved(); byte ch = sx_u8("ch"); sx_assume(ch != 0); produce(n, sx_fork(sx_bool("state")), ch, 0, true);
}
// a table filled with own events of the given numbers and foreign ones, some entries arbitrary
static void produceFilled(unsigned events, unsigned evs, unsigned p, unsigned q, unsigned r, unsigned own, unsigned step)
{
  sx_need("taught"); sx_need("default"); sx_need("short"); sx_need("full");
  Io *n = new Io(1, events, evs); for (unsigned a = n->base(0); a < n->mem->size; a++) n->mem->m[a] = 0;
  for (unsigned i = 0; i < events; i++) { byte *x = n->mem->m + n->base(i); bool mine = i < own; x[0] = mine ? n->mem->m[2] : 7; x[1] = mine ? n->mem->m[3] : i; x[2] = 0; x[3] = mine ? 1 + i * step : 1; x[4] = 100 + i; }
  for (unsigned i : {p, q, r}) n->mem->symbolic(n->base(i), n->base(i + 1));
  n->go(); n->noReserved(); byte ch = sx_u8("ch"); sx_assume(ch != 0); produce(n, sx_fork(sx_bool("state")), ch, sx_fork(sx_range("data", 0, 3)), true);
}
CASE(C25_filled_foreign) { produceFilled(8, 1, 2, 5, 7, 0, 1); }
CASE(C25_filled_own) { produceFilled(9, 2, 1, 5, 8, 9, 1); }
CASE(C25_filled_own_gaps) { produceFilled(12, 1, 0, 6, 11, 7, 2); }
CASE(C25_filled_40) { produceFilled(40, 1, 20, 30, 39, 35, 1); }
CASE(C25_sparse_8) { produceSparse(8, 2, 2, 5, 7); }
CASE(C25_sparse_255) { produceSparse(255, 1, 126, 128, 254); }
CASE(C25_sparse_130) { produceSparse(130, 2, 0, 64, 129); }
CASE(C25_large) { produceLarge(false); }
CASE(C25_large_full) { produceLarge(true); }
// taught identity is used
CASE(C25_after_teaching)
{
  FullNode *n = new FullNode(1, 3, 2); regularSettings(n->mem, MODE_NORMAL); for (unsigned a = 11; a < n->mem->size; a++) n->mem->m[a] = 255; n->go(PLAIN); unsigned nn = n->nn; sx_assume(nn && nn != 0xffff);
  byte ch = sx_u8("ch"); sx_assume(ch && ch != 255); n->prod->sendEvent(true, ch); n->drain(); sx_assert(only(*n->rec, M(OPC_ACON, hi(nn), lo(nn), 0, 1)), "the default identity");
  byte id[4]; for (int i = 0; i < 4; i++) id[i] = sx_u8("id"); sx_assume(!(id[0] == 255 && id[1] == 255)); sx_assume(id[0] || id[1]);
  n->receive(M(OPC_NNLRN, hi(nn), lo(nn))); n->receive(M(OPC_EVLRN, id[0], id[1], id[2], id[3], 1, ch)); n->rec->clear();
  n->prod->sendEvent(false, ch, 9); n->drain(); sx_assert(only(*n->rec, M(OPC_ACOF1, id[0], id[1], id[2], id[3], 9)), "the taught identity is used");
  n->receive(M(OPC_EVULN, id[0], id[1], id[2], id[3])); n->rec->clear();
  n->prod->sendEvent(false, ch); n->drain(); sx_assert(only(*n->rec, M(OPC_ACOF, hi(nn), lo(nn), 0, 1)), "after unlearning, a default identity again");
  sx_assert(n->conf->numEvents() == 1, "one entry");
}
// default events of a new module are created when it gets its node number
static void newModule(unsigned events, unsigned produced)
{
  FullNode *n = new FullNode(1, events, 2); for (unsigned a = 0; a < n->mem->size; a++) n->mem->m[a] = 255; n->conf->EE_PRODUCED_EVENTS = produced; n->go(PLAIN);
  n->ctl->putAction(ACT_CHANGE_MODE); n->drain(); unsigned nn = sx_u16("nn"); sx_assume(nn && nn != 0xffff); n->receive(M(OPC_SNN, hi(nn), lo(nn)));
  n->poll(); unsigned want = produced < events ? produced : events; sx_assert(n->conf->numEvents() == want, "one default event for each produced event");
  bool ok = true; for (unsigned i = 0; i < want; i++) { byte *x = n->ev(i); ok = ok & (x[0] == hi(nn)) & (x[1] == lo(nn)) & (x[2] == 0) & (x[3] == i + 1) & (x[4] == i + 1) & (x[5] == 0); }
  for (unsigned i = want; i < events; i++) { byte *x = n->ev(i); ok = ok & (x[0] == 255) & (x[1] == 255) & (x[2] == 255) & (x[3] == 255); }
  sx_assert(ok, "with the module's node number, event number and channel"); sx_assert(n->mem->m[10] == 0, "node variables stay");
  n->receive(M(OPC_RQNN)); n->poll(); sx_assert(n->conf->numEvents() == want, "only once");
}
CASE(C25_new_module) { newModule(5, 3); }
CASE(C25_new_module_none) { newModule(2, 0); }
CASE(C25_new_module_exact) { newModule(4, 4); }
CASE(C25_new_module_too_many) { newModule(3, 5); }
// @case cost=60
CASE(C25_new_module_255) { newModule(4, 255); }
CASE(C25_new_module_60) { newModule(60, 60); }

// --- C26 ---------------------------------------------------------------------------------------
static void statusRequest(unsigned events, unsigned evs, int steps)
{
  if (events) sx_need("called"); sx_need("ignored");
  Io *n = new Io(1, events, evs); n->table(); n->go(sx_fork(sx_bool("coe")));
  for (int s = 0; s < steps; s++)
  {
    Msg m = symMsg(sx_fork(sx_range("len", 5, 8))); int before = requested.n; unsigned nn = n->nn;
    n->receive(m);
    unsigned a = m.d[1] * 256u + m.d[2], b = m.d[3] * 256u + m.d[4]; bool isLong = m.d[0] == 0x92, isShort = m.d[0] == 0x9A && (a == nn || a == 0);
    unsigned at = sx_fork(n->where(isShort ? 0 : a, b)); bool call = false; for (unsigned i = 0; i < events; i++) call = call | ((at == i) & (n->e(i)[4] != 0)); call = call && (isLong || isShort);
    if (call)
    {
      sx_cover("called"); sx_assert(requested.n == before + 1 && requested.index[before] == at, "the handler runs exactly once with the matching entry");
      bool ok = requested.m[before].len == m.len; for (int i = 0; i < 8; i++) ok = ok & (requested.m[before].d[i] == m.d[i]); sx_assert(ok, "and with the request");
    }
    else { sx_cover("ignored"); sx_assert(requested.n == before, "the handler runs for nothing else"); }
    sx_assert(n->rec->n == 0, "the library itself answers nothing"); n->unchanged();
  }
}
CASE(C26_request_3x2) { statusRequest(3, 2, 1); }
CASE(C26_request_1x1) { statusRequest(1, 1, 1); }
CASE(C26_request_0) { statusRequest(0, 1, 1); }
// @case cost=20
CASE(C26_request_5) { statusRequest(5, 3, 1); }
static void requestSparse(unsigned events, unsigned evs, unsigned p, unsigned q, unsigned r)
{
  sx_need("called"); sx_need("ignored");
  Io *n = new Io(1, events, evs); n->sparse(p, q, r); n->go(); Msg m = symMsg(5); unsigned nn = n->nn; n->receive(m);
  unsigned a = m.d[1] * 256u + m.d[2], b = m.d[3] * 256u + m.d[4]; bool isLong = m.d[0] == 0x92, isShort = m.d[0] == 0x9A && (a == nn || a == 0);
  unsigned at = sx_fork(n->where(isShort ? 0 : a, b)); bool call = (isLong || isShort) && at < events && n->e(at)[4] != 0;
  if (call) { sx_cover("called"); sx_assert(requested.n == 1 && requested.index[0] == at, "the handler runs exactly once with the matching entry"); } else { sx_cover("ignored"); sx_assert(requested.n == 0, "the handler runs for nothing else"); }
  sx_assert(n->rec->n == 0, "the library itself answers nothing"); n->unchanged();
}
CASE(C26_request_255) { requestSparse(255, 1, 126, 128, 254); }
CASE(C26_request_255_edges) { requestSparse(255, 2, 0, 127, 253); }
CASE(C26_request_twice) { statusRequest(2, 1, 2); }
// nothing registered: neither explicitly nor by default (a service created on the heap)
static void noHandler(bool cleared)
{
  Io *n = new Io(0, 2, 1); n->table(); EventProducerService *p = new EventProducerService; if (cleared) p->setRequestEventHandler(nullptr);
  n->start(MAKE(Controller, n->conf, {p, n->rec})); n->snap();
  Msg m = symMsg(5); n->receive(m); sx_assert(requested.n == 0 && n->rec->n == 0, "nothing is called when no handler is registered"); n->unchanged();
}
CASE(C26_no_handler) { noHandler(false); }
CASE(C26_handler_removed) { noHandler(true); }
static const byte arOps[2][4] = {{0x93, 0xB3, 0xD4, 0xF3}, {0x9D, 0xBD, 0xDD, 0xFD}};
static void response(unsigned events, unsigned evs, unsigned from, unsigned to)
{
  sx_need("long"); sx_need("short");
  Io *n = new Io(1, events, evs); n->mem->symbolic(n->base(from), n->base(to) + 4); n->go(); byte ix = sx_range("ix", from, to); bool st = sx_fork(sx_bool("state")); int data = sx_fork(sx_range("data", 0, 3));
  byte b[3] = {sx_u8("b"), sx_u8("b"), sx_u8("b")};
  switch (data) { case 0: n->prod->sendEventResponse(st, ix); break; case 1: n->prod->sendEventResponse(st, ix, b[0]); break; case 2: n->prod->sendEventResponse(st, ix, b[0], b[1]); break; default: n->prod->sendEventResponse(st, ix, b[0], b[1], b[2]); }
  n->drain(); n->unchanged();
  byte id[4] = {0, 0, 0, 0}; for (unsigned i = from; i <= to; i++) for (int k = 0; k < 4; k++) id[k] = ix == i ? n->e(i)[k] : id[k];
  bool sh = id[0] == 0 && id[1] == 0; if (sh) { id[0] = hi(n->nn); id[1] = lo(n->nn); sx_cover("short"); } else sx_cover("long");
  sx_assert(n->rec->n == 1, "exactly one response"); Msg &m = n->rec->out[0]; bool ok = (m.len == 5 + data) & (m.d[0] == arOps[sh][data] + !st); for (int i = 0; i < 4; i++) ok = ok & (m.d[1 + i] == id[i]); for (int i = 0; i < data; i++) ok = ok & (m.d[5 + i] == b[i]);
  sx_assert(ok, "the response carries op-code, identity and data bytes");
}
CASE(C26_response_3x2) { response(3, 2, 0, 2); }
CASE(C26_response_high) { response(255, 1, 126, 129); }
CASE(C26_response_last) { response(255, 20, 253, 254); }
