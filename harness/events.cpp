// Event teaching: C20 teach, C21 unlearn and clear, C22 read-back, C23 learn mode.
// @source Configuration.cpp
// @source Controller.cpp
// @source Service.cpp
// @source MinimumNodeService.cpp
// @source MinimumNodeServiceWithDiagnostics.cpp
// @source CanService.cpp
// @source CanServiceWithDiagnostics.cpp
// @source NodeVariableService.cpp
// @source EventTeachingService.cpp
// @source EventTeachingServiceWithDiagnostics.cpp
// @source EventConsumerService.cpp
// @source EventConsumerServiceWithDiagnostics.cpp
// @source EventProducerService.cpp
// @source EventProducerServiceWithDiagnostics.cpp
#include "fullnode.h"

// a module with only the event services, an arbitrary event table and a snapshot of its storage
struct Ev : Node
{
  EventTeachingService *ets; unsigned nn, events, evs; byte *old;
  Ev(unsigned nvs, unsigned events_, unsigned evs_, bool producer = false, bool diag = false) : Node(10 + nvs + events_ * (4 + evs_))
  {
    events = events_; evs = evs_; geometry(nvs, events, evs); regularSettings(mem, MODE_NORMAL);
    ets = diag ? MAKE(EventTeachingServiceWithDiagnostics) : MAKE(EventTeachingService); prod = producer;
  }
  bool prod;
  void table() { mem->symbolic(10 + conf->EE_NUM_NVS, mem->size); }
  void go(bool learn)
  {
    if (prod) start(MAKE(Controller, conf, {ets, MAKE(EventProducerService), rec})); else start(MAKE(Controller, conf, {ets, rec}));
    nn = conf->nodeNum;
    if (learn) { receive(M(OPC_NNLRN, hi(nn), lo(nn))); sx_assert(rec->n == 0, "a learn command is not answered"); }
    snap();
  }
  void snap() { rec->clear(); old = (byte *)malloc(mem->size); memcpy(old, mem->m, mem->size); }
  unsigned base(unsigned i) { return 10 + conf->EE_NUM_NVS + i * (4 + evs); }
  bool used(unsigned i) { byte *e = old + base(i); return !((e[0] == 255) & (e[1] == 255) & (e[2] == 255) & (e[3] == 255)); }
  bool is(unsigned i, const byte *id) { byte *e = old + base(i); return (e[0] == id[0]) & (e[1] == id[1]) & (e[2] == id[2]) & (e[3] == id[3]) & used(i); }
  unsigned where(const byte *id) { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = is(i, id) ? i : r; return r; }
  unsigned freeSlot() { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = used(i) ? r : i; return r; }
  unsigned byValue(byte v) { unsigned r = events; for (int i = events - 1; i >= 0; i--) r = used(i) & (old[base(i) + 4] == v) ? i : r; return r; }
  unsigned count() { unsigned r = 0; for (unsigned i = 0; i < events; i++) r += used(i); return r; }
  // storage is the snapshot, except this entry's identity and this variable
  void stored(unsigned at, const byte *id, int ev, byte val)
  {
    bool ok = true;
    for (unsigned a = 0; a < mem->size; a++)
    {
      byte want = old[a];
      if (at < events) { for (int b = 0; b < 4; b++) want = id && a == base(at) + b ? id[b] : want; if (ev) want = a == base(at) + 3 + ev ? val : want; }
      ok = ok & (mem->m[a] == want);
    }
    sx_assert(ok, "storage changes exactly as the command says");
  }
  void unchanged() { stored(events, nullptr, 0, 0); }
  // the running lookup knows exactly what storage holds
  void coherent()
  {
    unsigned a = sx_u16("look nn"), b = sx_u16("look en"); byte id[4] = {(byte)hi(a), (byte)lo(a), (byte)hi(b), (byte)lo(b)};
    byte *keep = old; old = mem->m;
    sx_assert(conf->findExistingEvent(a, b) == where(id), "lookup agrees with the stored table");
    sx_assert(conf->numEvents() == count() && conf->findEventSpace() == freeSlot(), "the counts agree with the stored table");
    old = keep;
  }
};
#define OKS(op) sx_assert(both(*n->rec, WRACKM, GRSPM(op, SERVICE_ID_OLD_TEACH, GRSP_OK)), "the command is acknowledged")
#define ERR(op, code) sx_assert(both(*n->rec, CMDERRM(code), GRSPM(op, SERVICE_ID_OLD_TEACH, code)), "the documented error is answered")
static bool blankId(const byte *id) { return (id[0] == 255) & (id[1] == 255) & (id[2] == 255) & (id[3] == 255); }

// --- C20 ---------------------------------------------------------------------------------------
static void expectTeach(Ev *n, const Msg &m)
{
  unsigned nn = n->nn; byte ev = m.d[5], val = m.d[6]; const byte *id = m.d + 1;
  if (ev == 0 || ev > n->evs) { sx_cover("bad variable"); ERR(OPC_EVLRN, CMDERR_INV_EV_IDX); n->unchanged(); return; }
  if (ev == 1 && val > 0 && n->byValue(val) < n->events) { sx_cover("produced"); OKS(OPC_EVLRN); n->stored(n->byValue(val), id, 0, 0); return; }
  unsigned at = n->where(id); bool known = at < n->events; if (!known) at = n->freeSlot();
  at = sx_fork(at);
  if (at >= n->events) { sx_cover("full"); ERR(OPC_EVLRN, CMDERR_TOO_MANY_EVENTS); n->unchanged(); return; }
  if (known) sx_cover("existing"); else sx_cover("new");
  OKS(OPC_EVLRN); n->stored(at, id, ev, val);
}
static void teach(unsigned nvs, unsigned events, unsigned evs)
{
  sx_need("bad variable"); sx_need("full");
  if (evs && events) { sx_need("existing"); sx_need("new"); sx_need("produced"); }
  if (!evs) { sx_need("bad variable"); }
  Ev *n = new Ev(nvs, events, evs); n->table(); n->go(true);
  Msg m = symMsg(sx_fork(sx_range("len", 7, 8))); m.d[0] = OPC_EVLRN; sx_assume(!blankId(m.d + 1));
  n->receive(m); expectTeach(n, m); n->coherent();
}
CASE(C20_teach_3x2) { teach(2, 3, 2); }
CASE(C20_teach_1x1) { teach(0, 1, 1); }
CASE(C20_teach_4x3) { teach(1, 4, 3); }
// @case tier=thorough cost=20
CASE(C20_teach_6x3) { teach(0, 6, 3); }
// any two or three commands one after another
static void teachHistory(int steps)
{
  Ev *n = new Ev(0, 2, 2); n->table(); n->go(true);
  for (int s = 0; s < steps; s++)
  {
    Msg m = symMsg(7); m.d[0] = OPC_EVLRN; sx_assume(!blankId(m.d + 1));
    n->snap(); n->receive(m); expectTeach(n, m);
  }
  n->coherent();
}
CASE(C20_teach_twice) { teachHistory(2); }
// @case tier=thorough cost=30
CASE(C20_teach_three) { teachHistory(3); }
// by index
static void teachIndex(unsigned nvs, unsigned events, unsigned evs)
{
  sx_need("bad index"); sx_need("bad variable"); sx_need("taught");
  Ev *n = new Ev(nvs, events, evs); n->table(); n->go(true); unsigned nn = n->nn;
  Msg m = symMsg(8); m.d[0] = OPC_EVLRNI; byte ix = m.d[5], ev = m.d[6], val = m.d[7];
  n->receive(m);
  if (ix >= events) { sx_cover("bad index"); sx_assert(n->rec->n >= 1 && n->rec->count(GRSPM(OPC_EVLRNI, SERVICE_ID_OLD_TEACH, CMDERR_INV_EN_IDX)) == 1 && n->rec->count(WRACKM) == 0, "invalid index"); n->unchanged(); }
  else if (ev == 0 || ev > evs) { sx_cover("bad variable"); ERR(OPC_EVLRNI, CMDERR_INV_EV_IDX); n->unchanged(); }
  else { sx_cover("taught"); OKS(OPC_EVLRNI); n->stored(ix, m.d + 1, ev, val); }
  n->coherent();
}
CASE(C20_index_3x2) { teachIndex(2, 3, 2); }
CASE(C20_index_5x4) { teachIndex(0, 5, 4); }
// large tables: some arbitrary entries, the rest fixed
static Ev *largeTable(unsigned events, unsigned evs)
{
  Ev *n = new Ev(3, events, evs);
  for (unsigned i = 0; i < events; i++) { byte *e = n->mem->m + n->base(i); e[0] = 1; e[1] = 2; e[2] = i; e[3] = 7; for (unsigned j = 0; j < evs; j++) e[4 + j] = i ^ j; }
  unsigned at[4] = {0, 127, 128, events - 1};
  for (int j = 0; j < 4; j++) for (unsigned b = 0; b < 4 + (evs < 2 ? evs : 2); b++) n->mem->m[n->base(at[j]) + b] = sx_u8("entry");
  return n;
}
// @case cost=30
CASE(C20_large_new)
{
  Ev *n = largeTable(200, 3); n->go(true); Msg m = symMsg(7); m.d[0] = OPC_EVLRN; sx_assume(!blankId(m.d + 1)); sx_assume(m.d[4] != 7); m.d[5] = sx_range("ev", 1, 3); m.d[6] = sx_range("val", 0, 3);
  n->receive(m); expectTeach(n, m);
}
// @case cost=30
CASE(C20_large_index)
{
  Ev *n = largeTable(255, 20); n->go(true); unsigned nn = n->nn; Msg m = symMsg(8); m.d[0] = OPC_EVLRNI; m.d[5] = sx_fork(sx_range("ix", 126, 129)); m.d[6] = sx_range("ev", 1, 20);
  n->receive(m); OKS(OPC_EVLRNI); n->stored(m.d[5], m.d + 1, m.d[6], m.d[7]);
}

// --- C21 ---------------------------------------------------------------------------------------
// the identity of this entry is free, everything else outside the entry is as before
static void freed(Ev *n, unsigned at)
{
  bool ok = true;
  for (unsigned a = 0; a < n->mem->size; a++)
  {
    bool inside = a >= n->base(at) && a < n->base(at + 1);
    ok = ok & (!inside ? n->mem->m[a] == n->old[a] : a < n->base(at) + 4 ? n->mem->m[a] == 255 : true);
  }
  sx_assert(ok, "exactly the named entry is freed");
}
static void unlearn(Ev *n, const Msg &m)
{
  unsigned nn = n->nn; n->receive(m); unsigned at = sx_fork(n->where(m.d + 1));
  if (at >= n->events) { sx_cover("not stored"); ERR(OPC_EVULN, CMDERR_INVALID_EVENT); n->unchanged(); }
  else { sx_cover("unlearned"); OKS(OPC_EVULN); freed(n, at); }
}
static void unlearns(unsigned nvs, unsigned events, unsigned evs, int steps)
{
  sx_need("not stored"); if (events) sx_need("unlearned");
  Ev *n = new Ev(nvs, events, evs); n->table(); n->go(true);
  for (int s = 0; s < steps; s++) { Msg m = symMsg(5); m.d[0] = OPC_EVULN; n->snap(); unlearn(n, m); }
  n->coherent();
}
CASE(C21_unlearn_3x2) { unlearns(2, 3, 2, 1); }
CASE(C21_unlearn_0) { unlearns(2, 0, 2, 1); }
CASE(C21_unlearn_1x0) { unlearns(0, 1, 0, 1); }
// @case cost=30
CASE(C21_unlearn_6) { unlearns(0, 6, 1, 1); }
CASE(C21_unlearn_twice) { unlearns(1, 3, 1, 2); }
// @case cost=30
CASE(C21_unlearn_three) { unlearns(0, 2, 1, 3); }
// @case cost=30
CASE(C21_unlearn_large) { Ev *n = largeTable(255, 2); n->go(true); Msg m = symMsg(5); m.d[0] = OPC_EVULN; sx_assume(m.d[4] != 7); unlearn(n, m); }
static void clearAll(unsigned nvs, unsigned events, unsigned evs)
{
  sx_need("cleared"); sx_need("refused"); sx_need("other node");
  bool producer = sx_fork(sx_bool("producer")), learn = sx_fork(sx_bool("learn"));
  Ev *n = new Ev(nvs, events, evs, producer); unsigned some = events < 6 ? events : 6;
  for (unsigned i = 0; i < events; i++) n->mem->m[n->base(i)] = 1;
  for (unsigned i = 0; i < some; i++) n->mem->symbolic(n->base(i), n->base(i + 1));
  n->go(learn); unsigned nn = n->nn;
  Msg m = symMsg(3); m.d[0] = OPC_NNCLR; bool mine = m.d[1] * 256u + m.d[2] == nn;
  n->receive(m);
  if (!mine) { sx_cover("other node"); sx_assert(n->rec->n == 0, "not for this node"); n->unchanged(); }
  else if (!learn) { sx_cover("refused"); ERR(OPC_NNCLR, CMDERR_NOT_LRN); n->unchanged(); }
  else
  {
    sx_cover("cleared"); OKS(OPC_NNCLR);
    for (unsigned i = 0; i < events; i++) { byte *e = n->mem->m + n->base(i); sx_assert(blankId(e), "every entry is free"); }
    sx_assert(n->conf->numEvents() == 0 && n->conf->findEventSpace() == 0, "no event stored");
    sx_assert(n->conf->findExistingEvent(sx_u16("nn"), sx_u16("en")) == events, "no event is found");
    for (unsigned a = 0; a < n->base(0); a++) sx_assert(n->mem->m[a] == (a == LOCATION_RESET_FLAG && producer ? 99 : n->old[a]), "settings and node variables stay; producers flag the reset");
    // the table can be filled again
    if (events && evs) { byte id[4] = {3, 4, 5, 6}; n->snap(); n->receive(M(OPC_EVLRN, 3, 4, 5, 6, 1, 0)); n->stored(0, id, 1, 0); n->coherent(); }
  }
}
CASE(C21_clear_3x2) { clearAll(2, 3, 2); }
CASE(C21_clear_0) { clearAll(2, 0, 2); }
// @case cost=30
CASE(C21_clear_255) { clearAll(2, 255, 1); }

// --- C22 ---------------------------------------------------------------------------------------
static M enrsp(Ev *n, unsigned i) { byte *e = n->old + n->base(i); return M(OPC_ENRSP, hi(n->nn), lo(n->nn), e[0], e[1], e[2], e[3], i); }
static void counts(unsigned events, unsigned evs)
{
  Ev *n = new Ev(1, events, evs); n->table(); n->go(sx_fork(sx_bool("learn"))); unsigned nn = n->nn;
  n->receive(M(OPC_RQEVN, hi(nn), lo(nn))); sx_assert(only(*n->rec, M(OPC_NUMEV, hi(nn), lo(nn), n->count())), "the number of events");
  n->snap(); n->receive(M(OPC_NNEVN, hi(nn), lo(nn))); sx_assert(only(*n->rec, M(OPC_EVNLF, hi(nn), lo(nn), events - n->count())), "the number of free entries");
  n->unchanged();
}
CASE(C22_counts_0) { counts(0, 1); }
CASE(C22_counts_1) { counts(1, 1); }
CASE(C22_counts_5) { counts(5, 2); }
// @case cost=30
CASE(C22_counts_40) { counts(40, 1); }
static void listAll(unsigned events, unsigned evs)
{
  Ev *n = new Ev(1, events, evs); n->table(); n->go(false); unsigned nn = n->nn;
  n->receive(M(OPC_NERD, hi(nn), lo(nn)));
  sx_assert(n->rec->n == n->count(), "as many messages as events");
  unsigned k = 0;
  for (unsigned i = 0; i < events; i++) { bool ok = true; for (unsigned j = 0; j <= i; j++) ok = ok & (!n->used(i) | (k != j) | same(n->rec->out[j], enrsp(n, i))); sx_assert(ok, "every stored event is listed in order with its identity and index"); k += n->used(i); }
  n->unchanged();
}
CASE(C22_list_0) { listAll(0, 1); }
CASE(C22_list_3) { listAll(3, 2); }
CASE(C22_list_6) { listAll(6, 0); }
// a full table; beyond the message queue this is a known finding
static void listFull(unsigned events)
{
  Ev *n = new Ev(1, events, 1); n->mem->symbolic(n->base(0), n->base(events)); for (unsigned i = 0; i < events; i++) sx_assume(!blankId(n->mem->m + n->base(i))); n->go(false); unsigned nn = n->nn;
  n->receive(M(OPC_NERD, hi(nn), lo(nn)));
  // whatever is listed is, in order, the end of the list
  int got = n->rec->n; sx_assert(got <= (int)events && got >= (events < 30 ? (int)events : 30), "at least as many messages as can be queued");
  for (int i = 0; i < got; i++) sx_assert(same(n->rec->out[i], enrsp(n, events - got + i)), "every stored event is listed in order with its identity and index");
  sx_assert(got == (int)events, "as many messages as events");
  n->unchanged();
}
CASE(C22_list_28) { listFull(28); }
CASE(C22_list_40) { listFull(40); }
static void byIndex(Ev *n)
{
  sx_need("used"); sx_need("unused"); unsigned nn = n->nn;
  byte ix = sx_u8("ix"); n->receive(M(OPC_NENRD, hi(nn), lo(nn), ix));
  bool u = false; byte want[4] = {0, 0, 0, 0};
  for (unsigned i = 0; i < n->events; i++) { u = u | ((ix == i) & n->used(i)); for (int b = 0; b < 4; b++) want[b] = ix == i ? n->old[n->base(i) + b] : want[b]; }
  if (u) { sx_cover("used"); sx_assert(only(*n->rec, M(OPC_ENRSP, hi(nn), lo(nn), want[0], want[1], want[2], want[3], ix)), "the event at this index"); }
  else { sx_cover("unused"); ERR(OPC_NENRD, CMDERR_INV_EN_IDX); }
  n->unchanged();
}
CASE(C22_index_3) { Ev *n = new Ev(1, 3, 2); n->table(); n->go(sx_fork(sx_bool("learn"))); byIndex(n); }
CASE(C22_index_1) { Ev *n = new Ev(1, 1, 0); n->table(); n->go(false); byIndex(n); }
// @case cost=30
CASE(C22_index_255) { Ev *n = largeTable(255, 2); n->go(false); byIndex(n); }
// event variables by index (REVAL) and by event (REQEV)
static void variable(Ev *n, bool byEvent, byte from = 0)
{
  sx_need("no event"); sx_need("bad variable"); sx_need("all"); sx_need("one");
  unsigned nn = n->nn; Msg m = symMsg(byEvent ? 6 : 5); m.d[0] = byEvent ? OPC_REQEV : OPC_REVAL;
  unsigned at = n->events; byte ev = m.d[byEvent ? 5 : 4];
  if (byEvent) at = n->where(m.d + 1); else { m.d[1] = hi(nn); m.d[2] = lo(nn); sx_assume(m.d[3] >= from && (!from || m.d[3] < from + 5 || m.d[3] > 252)); for (unsigned i = 0; i < n->events; i++) at = (m.d[3] == i) & n->used(i) ? i : at; }
  n->receive(m); n->unchanged();
  int op = m.d[0];
  if (at >= n->events) { sx_cover("no event"); ERR(op, (byEvent ? CMDERR_INVALID_EVENT : CMDERR_INV_EN_IDX)); return; }
  if (ev > n->evs) { sx_cover("bad variable"); ERR(op, CMDERR_INV_EV_IDX); return; }
  at = sx_fork(at);
#define ANSWER(i, v) (byEvent ? M(OPC_EVANS, m.d[1], m.d[2], m.d[3], m.d[4], i, v) : M(OPC_NEVAL, hi(nn), lo(nn), at, i, v))
  if (ev == 0)
  {
    sx_cover("all"); sx_assert(n->rec->n == (int)n->evs + 1, "the count and all variables"); sx_assert(same(n->rec->out[0], ANSWER(0, n->evs)), "the count first");
    for (unsigned i = 1; i <= n->evs; i++) sx_assert(same(n->rec->out[i], ANSWER(i, n->old[n->base(at) + 3 + i])), "every variable in order");
  }
  else { sx_cover("one"); byte v = 0; for (unsigned i = 1; i <= n->evs; i++) v = ev == i ? n->old[n->base(at) + 3 + i] : v; sx_assert(only(*n->rec, ANSWER(ev, v)), "the variable's value"); }
}
CASE(C22_reval_3x2) { Ev *n = new Ev(1, 3, 2); n->table(); n->go(sx_fork(sx_bool("learn"))); variable(n, false); }
CASE(C22_reval_2x20) { Ev *n = new Ev(0, 2, 20); n->table(); n->go(false); variable(n, false); }
CASE(C22_reval_large) { Ev *n = largeTable(255, 4); n->go(false); variable(n, false, 125); }
CASE(C22_reqev_3x2) { Ev *n = new Ev(1, 3, 2); n->table(); n->go(true); variable(n, true); }
CASE(C22_reqev_2x20) { Ev *n = new Ev(0, 2, 20); n->table(); n->go(true); variable(n, true); }
CASE(C22_reval_2x1) { Ev *n = new Ev(1, 2, 1); n->table(); n->go(sx_fork(sx_bool("learn"))); variable(n, false); }
CASE(C22_reqev_2x1) { Ev *n = new Ev(0, 2, 1); n->table(); n->go(true); variable(n, true); }
CASE(C22_not_learning) { Ev *n = new Ev(0, 2, 2); n->table(); n->go(false); Msg m = symMsg(6); m.d[0] = OPC_REQEV; n->receive(m); n->unchanged(); sx_assert(n->rec->n == 0, "variables by event are read in learn mode only"); }
CASE(C22_other_node)
{
  Ev *n = new Ev(0, 2, 2); n->table(); n->go(true); Msg m = symMsg(5); byte ops[5] = {OPC_RQEVN, OPC_NNEVN, OPC_NERD, OPC_NENRD, OPC_REVAL}; m.d[0] = ops[sx_fork(sx_range("op", 0, 4))];
  sx_assume(m.d[1] * 256u + m.d[2] != n->nn); n->receive(m); n->unchanged(); sx_assert(n->rec->n == 0, "not for this node");
}
// what was taught is what is read back
CASE(C22_after_teaching)
{
  Ev *n = new Ev(0, 3, 3); for (unsigned i = 0; i < 3; i++) for (int b = 0; b < 4; b++) n->mem->m[n->base(i) + b] = 255;
  n->go(true); unsigned nn = n->nn; byte id[2][4], v[2], e[2];
  for (int k = 0; k < 2; k++)
  {
    for (int b = 0; b < 4; b++) id[k][b] = sx_u8("id"); sx_assume(!blankId(id[k])); e[k] = sx_range("ev", 2, 3); v[k] = sx_u8("val");
    n->receive(M(OPC_EVLRN, id[k][0], id[k][1], id[k][2], id[k][3], e[k], v[k]));
  }
  bool dup = memcmp(id[0], id[1], 4) == 0;
  n->rec->clear(); n->receive(M(OPC_RQEVN, hi(nn), lo(nn))); sx_assert(only(*n->rec, M(OPC_NUMEV, hi(nn), lo(nn), dup ? 1 : 2)), "the number of taught events");
  n->rec->clear(); n->receive(M(OPC_REQEV, id[1][0], id[1][1], id[1][2], id[1][3], e[1])); sx_assert(only(*n->rec, M(OPC_EVANS, id[1][0], id[1][1], id[1][2], id[1][3], e[1], v[1])), "the variable last taught");
  n->rec->clear(); n->receive(M(OPC_REQEV, id[0][0], id[0][1], id[0][2], id[0][3], e[0])); sx_assert(only(*n->rec, M(OPC_EVANS, id[0][0], id[0][1], id[0][2], id[0][3], e[0], dup && e[0] == e[1] ? v[1] : v[0])), "the variable taught first");
}

// --- C23 ---------------------------------------------------------------------------------------
static void keeps(FullNode *n, const byte *old, const char *why) { bool ok = true; for (unsigned a = n->evAddr(0); a < n->mem->size; a++) ok = ok & (n->mem->m[a] == old[a]); sx_assert(ok, why); }
// the reference for learn mode
static bool learnAfter(bool learn, const Msg &m, unsigned nn)
{
  bool mine = m.d[1] * 256u + m.d[2] == nn;
  if (m.d[0] == OPC_NNLRN) return mine;
  if (m.d[0] == OPC_NNULN) return mine ? false : learn;
  if (m.d[0] == OPC_MODE && mine && m.len >= 4 && m.d[3] == MODE_LEARN_ON) return true;
  if (m.d[0] == OPC_MODE && mine && m.len >= 4 && m.d[3] == MODE_LEARN_OFF) return false;
  return learn;
}
static void learning(Kind kind, int mode, int steps)
{
  sx_need("learning"); sx_need("not learning");
  FullNode *n = new FullNode(1, 2, 1); regularSettings(n->mem, mode == MODE_SETUP ? MODE_NORMAL : mode); n->mem->symbolic(10, n->mem->size); n->go(kind);
  if (mode == MODE_SETUP) { n->ctl->putAction(ACT_RENEGOTIATE); n->drain(); }
  bool learn = false; byte *old = (byte *)malloc(n->mem->size);
  for (int s = 0; s < steps; s++)
  {
    memcpy(old, n->mem->m, n->mem->size); unsigned nn = n->conf->nodeNum;
    Msg m; m.len = sx_range("len", 3, 8); for (int i = 0; i < 8; i++) { byte b = sx_u8("d"); m.d[i] = i < m.len ? b : 0; }
    sx_assume(m.d[0] != OPC_NNRSM);      // the factory reset: C12
    bool was = learn; learn = learnAfter(learn, m, nn);
    n->receive(m);
    if (!was) keeps(n, old, "no message changes the event table while learn mode is off");
    sx_assert(!!(n->params[PAR_FLAGS] & PF_LRN) == learn, "learn mode is entered and left as documented, and the flag tells it");
    if (learn) sx_cover("learning"); else sx_cover("not learning");
  }
  // teaching works exactly in learn mode
  memcpy(old, n->mem->m, n->mem->size); n->rec->clear(); byte *e = n->mem->m + n->evAddr(0);
  n->receive(M(OPC_EVLRNI, 1, 2, 3, 4, 0, 1, 77));
  if (learn) sx_assert(e[0] == 1 && e[1] == 2 && e[2] == 3 && e[3] == 4 && e[4] == 77, "teaching works in learn mode"); else keeps(n, old, "teaching needs learn mode");
}
CASE(C23_one_message) { learning(PLAIN, MODE_NORMAL, 1); }
CASE(C23_one_message_setup) { learning(PLAIN, MODE_SETUP, 1); }
CASE(C23_one_message_uninitialised) { learning(PLAIN, MODE_UNINITIALISED, 1); }
CASE(C23_one_message_diag) { learning(DIAG, MODE_NORMAL, 1); }
CASE(C23_one_message_mixed) { learning(MIXED, MODE_NORMAL, 1); }
// @case cost=50
CASE(C23_two_messages) { learning(PLAIN, MODE_NORMAL, 2); }
// any history of learn and teach commands
static void learnHistory(int steps)
{
  sx_need("learning"); sx_need("not learning");
  Ev *n = new Ev(0, 2, 1); n->table(); n->go(false); bool learn = false; unsigned nn = n->nn;
  byte ops[8] = {OPC_NNLRN, OPC_NNULN, OPC_MODE, OPC_EVLRN, OPC_EVULN, OPC_EVLRNI, OPC_NNCLR, OPC_REQEV};
  for (int s = 0; s < steps; s++)
  {
    n->snap(); Msg m = symMsg(8); m.d[0] = ops[sx_range("op", 0, 7)]; bool was = learn; learn = learnAfter(learn, m, nn); n->receive(m);
    if (!was) n->unchanged();
    sx_assert(!!(n->params[PAR_FLAGS] & PF_LRN) == learn, "learn mode is entered and left as documented");
    if (learn) sx_cover("learning"); else sx_cover("not learning");
  }
}
// @case cost=30
CASE(C23_history_3) { learnHistory(3); }
// @case tier=thorough cost=100
CASE(C23_history_5) { learnHistory(5); }
